------------------------------- MODULE GenVec -------------------------------
(* Scripts for the vector register machine: a load followed by operation codes and operand selectors (simulation). *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES s, fin
Init == s = << >> /\ fin = FALSE
R(n) == RandomElement(0..n)
Step(o) == fin' = fin /\ s' = s \o << o, R(22), R(22) >>
Next == \/ s = << >> /\ Step(9)
        \/ s # << >> /\ Len(s) < 3 * Depth /\ Step(R(8))
        \/ Len(s) = 3 * Depth /\ ~fin /\ fin' = TRUE /\ s' = s
Spec == Init /\ [][Next]_<< s, fin >>
Emit == ~fin \/ PrintT("SCRIPT " \o ToString(s))
=============================================================================
