----------------------------- MODULE TraceVecF ------------------------------
(* Recorded calls on the float vector types are steps of the float register machine. *)
EXTENDS VecFloat, TraceBase
VARIABLES l
tvars == << acc, l >>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == FInit /\ l = 1
Same == UNCHANGED acc
N == Len(acc)
AsInt(c) == IF c THEN 1 ELSE 0
Mask(c) == IF c THEN -1 ELSE 0

FLoad == Is("fload") /\ Load(E.a) /\ E.r = E.a /\ Len(E.a) = E.n
FFill == Is("ffill") /\ Fill(E.v) /\ acc' = E.r
FSet == Is("fset") /\ SetLane(E.i, E.v) /\ acc' = E.r
FOp ==
  /\ Is("fop")
  /\ LET s == Splat(E.k, N) IN
     /\ IsBin(E.f, acc, E.b, E.vv) /\ E.cv = E.vv /\ IsBin(E.f, acc, s, E.vs) /\ E.cs = E.vs /\ IsBin(E.f, s, acc, E.sv) /\ E.refs
  /\ CASE E.keep = 0 -> Same [] E.keep = 1 -> Compound(E.f, E.b) [] E.keep = 2 -> Compound(E.f, Splat(E.k, N))
FUn ==
  /\ Is("fun") /\ Same
  /\ E.neg = Map1(XNeg, acc) /\ E.abs = Map1(Mag, acc)
  /\ E.floor = Map1(XFloor, acc) /\ E.ceil = Map1(XCeil, acc) /\ E.trunc = Map1(XTrunc, acc)
  /\ All2(IsRound, acc, E.round)
  /\ LET bit(i) == (E.bits \div 2^(i - 1)) % 2 = 1 IN
     /\ E.bits \in 0..(2^N - 1)
     /\ \A i \in 1..N : acc[i] # 0 => (bit(i) <=> acc[i] < 0) /\ E.sign[i] = One * Sgn(acc[i])
     /\ \A i \in 1..N : acc[i] = 0 => E.sign[i] \in {0, IF bit(i) THEN -One ELSE One}
FCmp ==
  /\ Is("fcmp") /\ Same
  /\ LET s == Splat(E.k, N)
         lt(x, y) == Mask(XLess(x, y))  gt(x, y) == Mask(XLess(y, x))
         le(x, y) == Mask(XLeq(x, y))   ge(x, y) == Mask(XLeq(y, x))
         eq(x, y) == Mask(XEq(x, y))    ne(x, y) == Mask(~XEq(x, y))
     IN /\ E.lt = Map2(lt, acc, E.b) /\ E.lts = Map2(lt, acc, s) /\ E.slt = Map2(lt, s, acc)
        /\ E.gt = Map2(gt, acc, E.b) /\ E.gts = Map2(gt, acc, s) /\ E.sgt = Map2(gt, s, acc)
        /\ E.le = Map2(le, acc, E.b) /\ E.les = Map2(le, acc, s) /\ E.sle = Map2(le, s, acc)
        /\ E.ge = Map2(ge, acc, E.b) /\ E.ges = Map2(ge, acc, s) /\ E.sge = Map2(ge, s, acc)
        /\ LET v == AsInt(All2(XEq, acc, E.b))  w == AsInt(All2(XEq, acc, s)) IN E.eqs = << v, w, w, v, w, w >>
        /\ E.equal = Map2(eq, acc, E.b) /\ E.nequal = Map2(ne, acc, E.b)
FSel ==
  /\ Is("fsel") /\ Same
  /\ LET lo == Map2(XMin, E.b, E.c)  hi == Map2(XMax, E.b, E.c)  fm(i) == XAdd(XMul(acc[i], E.b[i]), E.c[i]) IN
     /\ E.min = Map2(XMin, acc, E.b) /\ E.max = Map2(XMax, acc, E.b)
     /\ E.min3 = Map2(XMin, E.min, E.c) /\ E.max3 = Map2(XMax, E.max, E.c)
     /\ E.clamp = Map2(XMax, Map2(XMin, acc, hi), lo)
     /\ E.select = [i \in 1..N |-> IF E.m[i] < 0 THEN acc[i] ELSE E.b[i]]
     /\ E.fma = [i \in 1..N |-> fm(i)]
FMinMax == Is("fminmax") /\ Same /\ E.min = Map2(XMin, acc, E.b) /\ E.max = Map2(XMax, acc, E.b)
FGeo ==
  /\ Is("fgeo") /\ Same
  /\ LET n == E.n  d == Diff(acc, E.b)  sq == SumP(acc, acc, n)  dq == SumP(d, d, n) IN
     /\ E.dot = DotN(acc, E.b, n) /\ E.lensq = sq \div One /\ E.distsq = dq \div One
     /\ RootIs(E.len, 16 * sq) /\ RootIs(E.dist, 16 * dq)
     /\ sq > 0 => E.isunit /\ \A i \in 1..n : Near(E.unit[i] * E.len, 16384 * acc[i], E.len + Mag(E.unit[i]) + 64)
     /\ "close" \in DOMAIN E => (E.close[1] <=> dq <= 4 * One * One) /\ E.close[2] /\ E.close[3]   \* the bound is a maximum
     /\ n = 3 => E.cross = << (acc[2] * E.b[3] - acc[3] * E.b[2]) \div One, (acc[3] * E.b[1] - acc[1] * E.b[3]) \div One,
                              (acc[1] * E.b[2] - acc[2] * E.b[1]) \div One >>
\* v scaled to a length within a sixteenth of one, not one: the normalised vector (1/8192) has length one all the same, and
\* a bound above the distance of the squared length from one says normalised, a bound below it does not
FNear ==
  /\ Is("fnear") /\ Same /\ Len(E.r) = E.n
  /\ Near(SumP(E.r, E.r, E.n), 67108864, 24000) /\ \A i \in 1..E.n : Near(E.again[i], E.r[i], 1)
  /\ SumP(E.r, E.v, E.n) > 0 /\ \A i, j \in 1..E.n : Near(E.r[i] * E.v[j], E.r[j] * E.v[i], Mag(E.v[i]) + Mag(E.v[j]))
  /\ E.is = << TRUE, FALSE, TRUE >>
FDots ==
  /\ Is("fdots") /\ Same
  /\ E.d4 = Splat(DotN(acc, E.b, 4), 4) /\ E.d3 = Splat(DotN(acc, E.b, 3), 4)
  /\ LET mn3 == XMin(XMin(acc[1], acc[2]), acc[3])  mx3 == XMax(XMax(acc[1], acc[2]), acc[3]) IN
     E.r = << XMin(mn3, acc[4]), XMax(mx3, acc[4]), mn3, mx3 >>
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
FLerp ==
  /\ Is("flerp") /\ Same
  /\ E.r = [i \in 1..N |-> acc[i] + ((E.b[i] - acc[i]) * E.t) \div 4]
  /\ LET p == (Pow(E.f, E.dt) * 64) \div Pow(4, E.dt) IN      \* f^dt in 1/64
     E.rd = [i \in 1..N |-> acc[i] * 64 + (64 - p) * (E.b[i] - acc[i])]
FRep ==
  /\ Is("frep") /\ Same
  /\ \A i \in 1..N :
       /\ (acc[i] - E.r[i]) % One = 0
       \* from zero up in [0, 1), below zero in (0, 1]
       /\ IF acc[i] < 0 THEN E.r[i] > 0 /\ E.r[i] <= One ELSE E.r[i] >= 0 /\ E.r[i] < One
       /\ Mag(E.mod[i]) < E.d[i] /\ (acc[i] - E.mod[i]) % E.d[i] = 0 /\ Sgn(E.mod[i]) \in {0, Sgn(acc[i])}
\* bit patterns of floats: the sign is the top bit
FSgn ==
  /\ Is("fsgn") /\ Same
  /\ \A i \in 1..Len(E.neg) : /\ E.r[i] = (IF E.neg[i] = 1 THEN -One ELSE One)
                              /\ (E.bits \div 2^(i - 1)) % 2 = E.neg[i] /\ (E.neg[i] = 1) = (E.src[i] < 0)
                              /\ E.abs[i] >= 0 /\ (E.abs[i] = E.src[i] \/ E.abs[i] = E.src[i] + 2147483647 + 1)
                              /\ E.minus[i] # E.src[i] /\ (E.minus[i] = E.abs[i] \/ E.src[i] = E.abs[i])
\* in a unit of 2^8 or more every number is whole; in one of 2^-12 or less every number lies strictly within 1/4 of zero
FRnd ==
  /\ Is("frnd") /\ Same
  /\ E.s = acc \o [i \in 1..(Len(E.s) - N) |-> 0]
  /\ IF E.large THEN \A f \in {E.round, E.floor, E.ceil, E.trunc} : f = acc
     ELSE /\ E.floor = Map1(LAMBDA x : IF x < 0 THEN -One ELSE 0, acc) /\ E.ceil = Map1(LAMBDA x : IF x > 0 THEN One ELSE 0, acc)
          /\ \A f \in {E.round, E.trunc} : \A i \in 1..N : f[i] = 0

\* halves go away from zero
FHalf == Is("fhalf") /\ Same /\ E.round = Map1(XRoundAway, acc)
\* every form of an operation gives the single precision number next to the exact result, of two the even one
FRound ==
  /\ Is("fround") /\ Same
  /\ LET ex(x, y) == CASE E.f = "+" -> x + y [] E.f = "-" -> x - y [] E.f = "*" -> x * y
         all(p, q, r) == \A i \in 1..Len(r) : IsNearest(ex(p[i], q[i]), r[i])
         s == Splat(E.k, Len(E.a))
     IN all(E.a, E.b, E.vv) /\ all(E.a, s, E.vs) /\ all(s, E.a, E.sv) /\ E.cv = E.vv /\ E.cs = E.vs
\* and the fused product and sum is rounded once
FFused == Is("ffused") /\ Same /\ \A i \in 1..Len(E.r) : IsNearest(E.a[i] * E.b[i] + E.c[i], E.r[i])
FQuot ==
  /\ Is("fquot") /\ Same
  /\ LET all(p, q, r) == Len(r) = 2 * Len(p) /\ \A i \in 1..Len(p) : IsQuotient(p[i], q[i], r[2 * i - 1], r[2 * i])
         s == Splat(E.k, Len(E.a))
     IN all(E.a, E.b, E.vv) /\ all(E.a, s, E.vs) /\ all(s, E.a, E.sv) /\ E.cv = E.vv /\ E.cs = E.vs
FZero ==
  /\ Is("fzero") /\ Same
  /\ LET s == Splat(E.k, Len(E.a))
         all(p, sp, q, sq, r) == \A i \in 1..Len(r) : r[i] = SideOf(E.f, p[i], sp[i], q[i], sq[i])
     IN all(E.a, E.sa, E.b, E.sb, E.vv) /\ all(E.a, E.sa, s, E.sk, E.vs) /\ all(s, E.sk, E.a, E.sa, E.sv) /\ E.cv = E.vv /\ E.cs = E.vs
  /\ E.neg = [i \in 1..Len(E.a) |-> 1 - E.sa[i]] /\ E.abs = [i \in 1..Len(E.a) |-> 0]

------------------------------------------------------------------------------
(* functions whose values are irrational: algebraic laws with the stated tolerance *)
\* r/1024 is the square root of a/16; r = 256 h + m keeps the squares small
Root1024(a, r) == 0 <= r /\ r <= 60000 /\ LET h == r \div 256  m == r % 256 IN
                  Mag(a - h * h) < 2000 /\ Near(512 * h * m + m * m, 65536 * (a - h * h), 2 * r + 2)
FSqrt == Is("fsqrt") /\ Same /\ All2(Root1024, E.a, E.r)
FGain ==
  /\ Is("fgain") /\ Same
  /\ \A i \in 1..Len(E.x) :
       LET x == E.x[i]  k == E.k[i]  m == IF x < 8 THEN x ELSE 16 - x        \* 2m/16 = m/8
           a == (32768 * Pow(m, k)) \div Pow(8, k) IN                         \* half of (2m)^k in 1/65536
       /\ Near(E.g[i], IF x < 8 THEN a ELSE 65536 - a, 2)
       /\ Near(E.g[i] + E.s[i], 65536, 2)
FRoot == Is("froot") /\ Same /\ E.g = E.m
FLaneStep == Is("flane") /\ Same /\ All2(LAMBDA r, x : Near(r, x, 1), E.r, E.ref)
U == 8192
FTrig ==
  /\ Is("ftrig") /\ Same
  /\ \A i \in 1..4 :
       LET sa == E.sa[i]  ca == E.ca[i]  sb == E.sb[i]  cb == E.cb[i] IN
       /\ Near(sa * sa + ca * ca, U * U, 4 * U) /\ Near(sb * sb + cb * cb, U * U, 4 * U)
       /\ Near(E.ss[i] * U, sa * cb + ca * sb, 4 * U) /\ Near(E.cs[i] * U, ca * cb - sa * sb, 4 * U)
       /\ Near(E.sn[i], -sa, 2) /\ Near(E.cn[i], ca, 2)
\* near k twelfths of pi, many turns away too; values in 1/65536, the distance d in 1/2^20
Sin12 == << 0, 16962, 32768, 46341, 56756, 63303, 65536, 63303, 56756, 46341, 32768, 16962,
            0, -16962, -32768, -46341, -56756, -63303, -65536, -63303, -56756, -46341, -32768, -16962 >>
FTrigK ==
  /\ Is("ftrigk") /\ Same
  /\ \A i \in 1..4 :
       LET s == Sin12[(E.k[i] % 24) + 1]  c == Sin12[((E.k[i] + 6) % 24) + 1]  d == E.d[i] IN
       Near(E.s[i], s + (d * c) \div 1048576, 4) /\ Near(E.c[i], c - (d * s) \div 1048576, 4)
Ln2 == 90852       \* 131072 * ln 2
FLog ==
  /\ Is("flog") /\ Same
  /\ \A i \in 1..4 : Near(E.p[i], E.x[i] + E.y[i], 3) /\ Near(E.twice[i], E.x[i] + Ln2, 2) /\ Near(E.back[i], 65536, 16)
\* log(2^k x) = log x + k log 2 for every number a float can hold; exp doubles by squaring as far as it does not
\* overflow (0.2 percent where the result is subnormal), and leaves the range at both ends
FWide ==
  /\ Is("fwide") /\ Same
  /\ \A i \in 1..4 : Near(E.y[i] - E.x[i], (E.k[i] * 908522) \div 10, 8)
  /\ \A i \in 1..4 : Near(E.q[i], 4096, 8)
  /\ E.out = << XInf, 0, XInf, 0 >>
FExp == Is("fexp") /\ Same /\ E.pos /\ \A i \in 1..4 : Near(E.sum[i], 65536, 16) /\ Near(E.inv[i], 65536, 16)
FSpecial ==
  /\ Is("fspecial") /\ Same
  /\ \A i \in 1..4 : LET a == E.a[i] IN
       /\ E.log[i] = (IF IsNaN(a) \/ a < 0 THEN XNaN ELSE IF a = 0 THEN -XInf ELSE IF a = XInf THEN XInf ELSE E.log[i])
       /\ E.exp[i] = (IF IsNaN(a) THEN XNaN ELSE IF a = XInf THEN XInf ELSE IF a = -XInf THEN 0 ELSE IF a = 0 THEN One ELSE E.exp[i])
       /\ a = One => E.log[i] = 0
\* base in halves, integer exponent; value in 1/4096
PowV(b, e) == IF e >= 0 THEN (Pow(b, e) * 4096) \div Pow(2, e)
              ELSE LET v == (4096 * Pow(2, -e)) \div Pow(Mag(b), -e) IN IF b < 0 /\ (-e) % 2 = 1 THEN -v ELSE v
FPow ==
  /\ Is("fpow") /\ Same
  /\ \A i \in 1..4 : LET v == PowV(E.b[i], E.e[i]) IN
       /\ Near(E.pow[i], v, 2 + Mag(v) \div 65536)
       /\ Near(E.fast[i], v, 2 + Mag(v) \div 8192)
\* powers of positive numbers: two powers make one of the sum of the exponents, and the fast power is the power
FPowR ==
  /\ Is("fpowr") /\ Same
  /\ \A i \in 1..4 : /\ Near(E.same[i], 65536, 8) /\ Near(E.fast[i], 65536, 12) /\ Near(E.pow[i], 65536, 2)
                     /\ Near(E.one[i], 65536, 1) /\ Near(E.root[i], 65536, 2)
\* one and minus one to any whole power: the sign goes by the parity of the exponent
FPow1 ==
  /\ Is("fpow1") /\ Same
  /\ \A i \in 1..4 : LET v == IF E.b[i] < 0 /\ E.e[i] % 2 = 1 THEN -65536 ELSE 65536 IN E.fast[i] = v /\ E.pow[i] = v
TNext == FLoad \/ FFill \/ FSet \/ FOp \/ FUn \/ FCmp \/ FSel \/ FMinMax \/ FGeo \/ FNear \/ FDots \/ FLerp \/ FRep \/ FSgn \/ FRnd \/ FHalf \/ FRound \/ FFused \/ FQuot \/ FZero \/ FSqrt \/ FGain \/ FRoot
         \/ FLaneStep \/ FTrig \/ FTrigK \/ FLog \/ FWide \/ FExp \/ FSpecial \/ FPow \/ FPowR \/ FPow1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
