------------------------------ MODULE MC_Light ------------------------------
(* Texels and their directions are inverse; the probes determine band limited functions; bit reversal; windows. *)
EXTENDS Light, TLC
CONSTANT MaxDim
VARIABLE c                                    \* a case: << "cube", n, f, x, y >> or << "sh", q >> or << "rev", x >>
Init == \/ \E n \in 1..MaxDim, f \in 0..5 : \E x, y \in 0..(n - 1) : c = << "cube", n, f, x, y >>
        \/ \E q \in [1..9 -> {-1, 0, 1}] : c = << "sh", q >>
        \/ \E x \in 0..1023 : c = << "rev", x >>
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Cube == c[1] = "cube" => LET n == c[2]  d == TexelDir(c[3], c[4], c[5], n) IN
  /\ TexelOf(d, n) = << c[3], c[4], c[5] >> /\ TexelOf([i \in 1..3 |-> 5 * d[i]], n) = TexelOf(d, n)
  /\ FaceOf([i \in 1..3 |-> -d[i]]) = (IF c[3] % 2 = 0 THEN c[3] + 1 ELSE c[3] - 1)        \* opposite faces
Det == c[1] = "sh" => LET q == c[2] IN
  /\ (\A k \in 1..Len(Probes) : Sh(q, Probes[k][1], Probes[k][2]) = 0) => \A i \in 1..9 : q[i] = 0
  /\ \A k \in 1..Len(Probes) : LET v == Probes[k][1] IN Dot3(v, v) = Probes[k][2] * Probes[k][2]
  \* parity: the odd band changes sign at the antipode
  /\ LET v == Probes[13][1]  m == [i \in 1..3 |-> -v[i]]  e == [i \in 1..9 |-> IF Band(i) = 1 THEN -q[i] ELSE q[i]] IN Sh(q, m, 7) = Sh(e, v, 7)
Rev == c[1] = "rev" => /\ RevBits(RevBits(c[2], 10), 10) = c[2] /\ RevBits(c[2], 24) = 16384 * RevBits(c[2], 10)
Win == \A l \in 1..2, w \in {3, 4, 6, 8, 12} : 0 < Window(l, w) /\ Window(l, w) < 65536 /\ Window(2, w) < Window(1, w)
White == \A i \in 1..3 : Near(RgbXyz[i][1] + RgbXyz[i][2] + RgbXyz[i][3], << 9505, 10000, 10888 >>[i], 2)
Tables == SrgbTable[1] = 0 /\ SrgbTable[256] = 1048576 /\ \A k \in 1..255 : SrgbTable[k] < SrgbTable[k + 1]
Rigid == \A u \in { << 1, 2, 3, 4 >>, << -1, 0, 2, 1 >>, << 0, 0, 1, 1 >> } : LET R == Rot(u) IN
  \A i, j \in 1..3 : Dot3(R[i], R[j]) = IF i = j THEN QNorm(u) * QNorm(u) ELSE 0
Laws == Cube /\ Det /\ Rev /\ Win
ASSUME White /\ Tables /\ Rigid
=============================================================================
