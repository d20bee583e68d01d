------------------------------- MODULE GenBvh -------------------------------
(* Enumerates small scenes for replay: n, n boxes (6 ints), a query box (6 ints). *)
EXTENDS Geo, TLC
CONSTANTS MaxN, MaxX
VARIABLES n, scene, q
Spans == { <<a, b>> \in (0..MaxX) \X (0..MaxX) : a <= b }
Boxes == { << <<x[1], y[1], 0>>, <<x[2], y[2], 1>> >> : x \in Spans, y \in {<<0, 0>>, <<0, 1>>, <<1, 2>>} }
Flat(b) == b[1] \o b[2]
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Flat(Head(s)) \o Cat(Tail(s))
Init == n \in 1..MaxN /\ scene = << >> /\ q = << >>
Add == Len(scene) < n /\ \E b \in Boxes : scene' = Append(scene, b) /\ UNCHANGED << n, q >>
Ask == Len(scene) = n /\ q = << >> /\ UNCHANGED << n, scene >>
       /\ \E x \in Spans : q' = << <<x[1], 0, 0>>, <<x[2], 1, 0>> >>
Next == Add \/ Ask
Spec == Init /\ [][Next]_<<n, scene, q>>
Emit == q # << >> => PrintT("SCRIPT " \o ToString(<<n>> \o Cat(scene) \o Flat(q)))
=============================================================================
