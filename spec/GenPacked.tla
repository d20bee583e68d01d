----------------------------- MODULE GenPacked -----------------------------
(* Histories of the packed containers: operation, container, two operands (simulation). *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES s, fin
R(n) == RandomElement(0..n)
Init == s = << >> /\ fin = FALSE
Next == \/ Len(s) < 4 * Depth /\ fin' = fin /\ s' = s \o << R(15), R(1), R(40), R(255) >>
        \/ Len(s) = 4 * Depth /\ ~fin /\ fin' = TRUE /\ s' = s
Spec == Init /\ [][Next]_<< s, fin >>
Emit == ~fin \/ PrintT("SCRIPT " \o ToString(s))
=============================================================================
