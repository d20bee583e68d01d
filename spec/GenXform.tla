------------------------------ MODULE GenXform ------------------------------
(* Every sequence of up to Depth kinds of operations on a register: T01 and T02 replay them with values of their own. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, Kinds
VARIABLE s
Init == s = << >>
Next == Len(s) < Depth /\ \E k \in 0..(Kinds - 1) : s' = Append(s, k)
Spec == Init /\ [][Next]_s
Emit == Len(s) = Depth => PrintT("SCRIPT " \o ToString(s))
=============================================================================
