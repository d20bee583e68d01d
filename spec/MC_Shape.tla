------------------------------ MODULE MC_Shape ------------------------------
(* Changing the shape of matrices: laws that tie Grow and Cut to the algebra. *)
EXTENDS Mat
CONSTANTS Seeds
VARIABLES k, cols, rows
vars == << k, cols, rows >>
Many == 0..400
Init == k \in Seeds /\ cols \in 2..4 /\ rows \in 2..4
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Gen(c, r, q) == (((q + 3) * c + r * r * (q \div 7) + c * r * (q % 3) + q) % 9) - 4
A == MatOf(cols, rows, LAMBDA c, r : Gen(c, r, k))
B == MatOf(4, 4, LAMBDA c, r : Gen(c, r, k + 11))
V == [i \in 1..4 |-> Gen(i, 2, k + 5)]
Z4 == << 0, 0, 0, 0 >>
E4 == << 0, 0, 0, 1 >>
ShapeLaws ==
  \* shrinking twice is shrinking once, and whatever was grown is what is cut back
  /\ \A c \in 2..cols, r \in 2..rows : Cut(Cut(A, cols, r), c, r) = Cut(A, c, r) /\ Cut(A, cols, rows) = A
  /\ \A c \in 2..4, r \in 2..4 : Transpose(Cut(B, c, r)) = Cut(Transpose(B), r, c)
  /\ \A c \in 3..4 : LET M == Cut(B, c, 3)  g == Grow(M, V, V) IN
       /\ Cut(g, c, 3) = M /\ \A i \in 1..c : g[i][4] = V[i]
       /\ (c = 3 => g[4] = V)
       /\ (c = 4 => g = [i \in 1..4 |-> M[i] \o << V[i] >>])
  \* the identity grown with unit vectors is the identity; growing that way respects products and the inverse
  /\ Grow(Identity(3, 3), E4, E4) = Identity(4, 4)
  /\ LET M == Cut(B, 3, 3)  W == Cut(Transpose(B), 3, 3) IN
       /\ Grow(MMul(M, W), E4, E4) = MMul(Grow(M, E4, E4), Grow(W, E4, E4))
       /\ Det(Grow(M, E4, E4)) = Det(M)
       /\ Grow(Transpose(M), E4, E4) = Transpose(Grow(M, E4, E4))
  \* a square matrix acts on the first lanes exactly as its grown form
  /\ LET M == Cut(B, 3, 3)  p == << V[1], V[2], V[3] >> IN MVec(Grow(M, E4, E4), p \o <<7>>) = MVec(M, p) \o <<7>>
=============================================================================
