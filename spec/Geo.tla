-------------------------------- MODULE Geo --------------------------------
(* Exact integer geometry shared by all specifications. A vector is a sequence of integers,
   a box is <<lo, hi>> with closed bounds. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE FiniteSetsExt

Axes == 1..3

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
SetMin(S) == FoldSet(Min2, CHOOSE x \in S : TRUE, S)
SetMax(S) == FoldSet(Max2, CHOOSE x \in S : TRUE, S)

VMin(a, b) == [i \in 1..Len(a) |-> Min2(a[i], b[i])]
VMax(a, b) == [i \in 1..Len(a) |-> Max2(a[i], b[i])]
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VMul(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
VScale(a, n) == [i \in 1..Len(a) |-> a[i] * n]
VNeg(a) == [i \in 1..Len(a) |-> -a[i]]
Dot(a, b) == IF Len(a) = 2 THEN a[1]*b[1] + a[2]*b[2]
             ELSE IF Len(a) = 3 THEN a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
             ELSE a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4]
Cross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Zero3 == <<0, 0, 0>>

Box(lo, hi) == <<lo, hi>>
Args3(s, k) == << s[k], s[k + 1], s[k + 2] >>
Box6(s) == << <<s[1], s[2], s[3]>>, <<s[4], s[5], s[6]>> >>
IsBox(b) == \A i \in Axes : b[1][i] <= b[2][i]
BoxUnion(a, b) == << VMin(a[1], b[1]), VMax(a[2], b[2]) >>
BoxSect(a, b) == << VMax(a[1], b[1]), VMin(a[2], b[2]) >>
InBox(b, p) == \A i \in Axes : b[1][i] <= p[i] /\ p[i] <= b[2][i]
BoxIn(b, c) == \A i \in Axes : b[1][i] <= c[1][i] /\ c[2][i] <= b[2][i]   \* c inside b
BoxMeet(a, b) == \A i \in Axes : a[1][i] <= b[2][i] /\ b[1][i] <= a[2][i]
BoxExt(b) == VSub(b[2], b[1])
HalfArea(b) == LET e == BoxExt(b) IN e[1]*e[2] + e[1]*e[3] + e[2]*e[3]
Volume(b) == LET e == BoxExt(b) IN e[1]*e[2]*e[3]
Corners(b) == { << b[s[1]][1], b[s[2]][2], b[s[3]][3] >> : s \in [1..3 -> 1..2] }

\* union of the boxes P[k], k \in S (S nonempty)
UnionOf(P, S) == FoldSet(LAMBDA k, b : BoxUnion(P[k], b), P[CHOOSE k \in S : TRUE], S)
=============================================================================
