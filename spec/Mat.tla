-------------------------------- MODULE Mat ---------------------------------
(* Exact matrix algebra over the integers. A matrix is the sequence of its columns: M[c][r]. *)
EXTENDS Integers, Sequences
Cols(M) == Len(M)
Rows(M) == Len(M[1])
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
MatOf(cols, rows, F(_, _)) == [c \in 1..cols |-> [r \in 1..rows |-> F(c, r)]]
MapM(F(_), M) == [c \in 1..Cols(M) |-> [r \in 1..Rows(M) |-> F(M[c][r])]]
MVec(M, v) == [r \in 1..Rows(M) |-> SumTo(LAMBDA c : M[c][r] * v[c], Cols(M))]
VMat(v, M) == [c \in 1..Cols(M) |-> SumTo(LAMBDA r : M[c][r] * v[r], Rows(M))]
MMul(A, B) == [c \in 1..Cols(B) |-> MVec(A, B[c])]
Transpose(M) == MatOf(Rows(M), Cols(M), LAMBDA c, r : M[r][c])
Block(M, n) == MatOf(n, n, LAMBDA c, r : M[c][r])
Identity(cols, rows) == MatOf(cols, rows, LAMBDA c, r : IF c = r THEN 1 ELSE 0)
Without(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Minor(M, c, r) == [k \in 1..(Cols(M) - 1) |-> Without(M[IF k < c THEN k ELSE k + 1], r)]
RECURSIVE Det(_)
Det(M) == IF Cols(M) = 1 THEN M[1][1]
          ELSE SumTo(LAMBDA c : (IF c % 2 = 1 THEN 1 ELSE -1) * M[c][1] * Det(Minor(M, c, 1)), Cols(M))
Cofactor(M, c, r) == (IF (c + r) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(M, c, r))
Adjugate(M) == MatOf(Cols(M), Rows(M), LAMBDA c, r : Cofactor(M, r, c))
\* affine transforms, 4x4 with the last row 0 0 0 1
Translation(t) == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<t[1], t[2], t[3], 1>> >>
Scaling(s) == << <<s[1], 0, 0, 0>>, <<0, s[2], 0, 0>>, <<0, 0, s[3], 0>>, <<0, 0, 0, 1>> >>
Rigid(R, t) == << R[1] \o <<0>>, R[2] \o <<0>>, R[3] \o <<0>>, t \o <<1>> >>
\* changing shape keeps the common block; missing parts come from the given column and row
Grow(M, c3, r3) ==
  MatOf(4, 4, LAMBDA c, r : IF r = 4 THEN (IF c <= Cols(M) THEN r3[c] ELSE c3[4]) ELSE IF c <= Cols(M) THEN M[c][r] ELSE c3[r])
Cut(M, cols, rows) == MatOf(cols, rows, LAMBDA c, r : M[c][r])
=============================================================================
