------------------------------- MODULE MC_Mat -------------------------------
(* Laws of the matrix operators, exhaustive over small matrices (dimension N, entries E). *)
EXTENDS Mat, TLC
CONSTANTS N, Hi
VARIABLES a, b, st
vars == << a, b, st >>
E == IF Hi = 0 THEN {-1, 2} ELSE -Hi..Hi
Vecs == [1..N -> E]
Mats == [1..N -> Vecs]
FixedM(k) == [c \in 1..N |-> [r \in 1..N |-> ((c * 2 + r * r + k) % 5) - 2]]
Fixed == { FixedM(k) : k \in 0..4 }
V0 == [i \in 1..N |-> 2 * i - 3]
Some == { [c \in 1..N |-> [r \in 1..N |-> ((k * c + r * r * (k \div 7) + c * r * (k % 3)) % 5) - 2]] : k \in 0..120 }
Init == a \in (IF N = 4 THEN Some ELSE Mats) /\ b \in Fixed /\ st = 0
Next == st = 0 /\ st' = 1 /\ a' = MMul(a, b) /\ b' = Transpose(b)
Spec == Init /\ [][Next]_vars
ScaleM(M, k) == MapM(LAMBDA x : k * x, M)
I == Identity(N, N)
Laws ==
  /\ MMul(a, I) = a /\ MMul(I, a) = a
  /\ MVec(MMul(a, b), V0) = MVec(a, MVec(b, V0))
  /\ Transpose(MMul(a, b)) = MMul(Transpose(b), Transpose(a)) /\ Transpose(Transpose(a)) = a
  /\ VMat(V0, a) = MVec(Transpose(a), V0)
  /\ Det(MMul(a, b)) = Det(a) * Det(b) /\ Det(Transpose(a)) = Det(a)
  /\ MMul(a, Adjugate(a)) = ScaleM(I, Det(a)) /\ MMul(Adjugate(a), a) = ScaleM(I, Det(a))
=============================================================================
