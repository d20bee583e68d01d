------------------------------- MODULE Xform --------------------------------
(* The model matrix machine: an affine transform changed by translations, scales and rotations on either side.
   Rotations are the 24 Hurwitz units (quaternions in halves), whose matrices are exact. All entries are in units of 1/One. *)
EXTENDS Quat, XReal
VARIABLE m
Unit4 == MapM(LAMBDA x : One * x, Identity(4, 4))
XInit == m = Unit4
Norm1(M) == MapM(LAMBDA x : x \div One, M)
TMat(t) == << <<One, 0, 0, 0>>, <<0, One, 0, 0>>, <<0, 0, One, 0>>, <<t[1], t[2], t[3], One>> >>
SMat(s) == << <<s[1], 0, 0, 0>>, <<0, s[2], 0, 0>>, <<0, 0, s[3], 0>>, <<0, 0, 0, One>> >>
RMat(q) == LET R == RotMat(q)  n == QNorm(q)  c(i) == << (R[i][1] * One) \div n, (R[i][2] * One) \div n, (R[i][3] * One) \div n, 0 >> IN
           << c(1), c(2), c(3), <<0, 0, 0, One>> >>
After(A) == Norm1(MMul(m, A))           \* A acts first
Before(A) == Norm1(MMul(A, m))          \* A acts last
Model(t, q, s) == Norm1(MMul(Norm1(MMul(TMat(t), RMat(q))), SMat(s)))
WithTranslation(M, t) == [M EXCEPT ![4] = << t[1], t[2], t[3], M[4][4] >>]
Position(M) == << M[4][1], M[4][2], M[4][3] >>
ColSq(M, i) == M[i][1] * M[i][1] + M[i][2] * M[i][2] + M[i][3] * M[i][3]
ColDot(M, i, j) == M[i][1] * M[j][1] + M[i][2] * M[j][2] + M[i][3] * M[j][3]
Affine(M) == \A c \in 1..4 : M[c][4] = IF c = 4 THEN One ELSE 0
IsRigid(M) == Affine(M) /\ \A i, j \in 1..3 : ColDot(M, i, j) = IF i = j THEN One * One ELSE 0
RigidInverse(M) == LET R == Transpose(Block(M, 3))  t == MVec(R, Position(M)) IN
  << R[1] \o <<0>>, R[2] \o <<0>>, R[3] \o <<0>>, << -(t[1] \div One), -(t[2] \div One), -(t[3] \div One), One >> >>
=============================================================================
