----------------------------- MODULE GenGeometry -----------------------------
(* Triangles whose answer against a fixed box needs one particular separating axis: TLC picks them out of the grid
   so that the implementation meets cases decided by each of the thirteen axes alone. *)
EXTENDS Geometry, TLC
CONSTANTS N
VARIABLES t
Grid == (-3..3) \X (-3..3) \X (-3..3)
B == << <<-1, -1, -1>>, <<1, 1, 1>> >>
Init == t \in { << RandomElement(Grid), RandomElement(Grid), RandomElement(Grid) >> : i \in 1..N }
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
\* one axis only (up to sign) tells them apart; the extent may also be touched exactly
Deciders == { a \in SatAxes(t) : a # Zero3 /\ Apart(a, B, t) }
Gap(a) == LET P == { Dot(a, t[k]) : k \in Axes }  Q == { Dot(a, c) : c \in Corners(B) }
          IN Max2(SetMin(P) - SetMax(Q), SetMin(Q) - SetMax(P))
Touching == \E a \in SatAxes(t) : a # Zero3 /\ Gap(a) = 0
Interesting == Cardinality(Deciders) = 1 \/ (Deciders = {} /\ Touching)
Flat == t[1] \o t[2] \o t[3]
Emit == Interesting => PrintT("SCRIPT " \o ToString(<<0, 0, 0, 1, 1, 1>> \o Flat))
=============================================================================
