----------------------------- MODULE TraceLight -----------------------------
(* Recorded calls of the lighting and colour space functions. *)
EXTENDS Light, TraceBase
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1
IsUnit(d) == Near(Dot3(d, d), 268435456, 60000)        \* of 16384ths

------------------------------------------------------------------------------
(* R02 *)
Cube ==
  /\ Is("cube")
  /\ LET n == E.n IN
     /\ Near(E.st[1] * n, (n - 2 * E.x - 1) * 4096, n + 8) /\ Near(E.st[2] * n, (n - 2 * E.y - 1) * 4096, n + 8)
     /\ E.same /\ IsUnit(E.d) /\ TexelOf(E.d, n) = << E.f, E.x, E.y >>
     /\ LET v == TexelDir(E.f, E.x, E.y, n)  m == (E.f \div 2) + 1 IN
        \A i \in 1..3 : Near(E.d[i] * v[m], E.d[m] * v[i], 2 * n)
Ham == Is("ham") /\ E.x = E.i /\ E.y = RevBits(E.i, 24)
HamHi == Is("hamhi") /\ Near(E.x, E.hi * 256 + (E.lo \div 256), 2) /\ Near(E.y, RevBits(E.lo, 16) * 256 + (RevBits(E.hi, 16) \div 256), 2)
Cos16 == << 4096, 3784, 2896, 1567, 0, -1567, -2896, -3784, -4096, -3784, -2896, -1567, 0, 1567, 2896, 3784 >>
Samp ==
  /\ Is("samp")
  /\ LET c == Cos16[(E.k % 16) + 1]  s == Cos16[((E.k + 12) % 16) + 1]  d == E.d  den == 16384 + (E.m * E.m - 256) * E.j
         z2 == (d[3] * d[3]) \div 16384 IN
     /\ IsUnit(d) /\ d[3] >= 0 /\ E.w = 0
     /\ Near(z2 * den, (64 - E.j) * 256 * 16384, 5 * den)
     /\ Near(d[2] * c, d[1] * s, 3 * 16384 + 8192) /\ d[1] * c + d[2] * s >= -20000
Ggx ==
  /\ Is("ggx")
  /\ LET k2 == E.k * E.k  f == E.j * E.j * (k2 - 64) + 4096 IN
     IF f = 0 THEN TRUE ELSE Near(((E.r * f) \div 64) * f, ((16777216 * k2) \div 355) * 113, (f * f) \div 60 + 2 * f + 2000)
Ior == Is("ior") /\ Near(E.r * (E.k + 16) * 2, 5 * Abs(E.k - 16) * 65536, 4 * (E.k + 16))
------------------------------------------------------------------------------
(* R03 *)
Basis ==
  /\ Is("basis")
  /\ LET n == E.n  b == Basis2(E.v, n) IN Dot3(E.v, E.v) = n * n /\ \A i \in 1..9 : Near(2 * E.r[i] * n * n, b[i] * 4096, 3 * n * n)
Signs == << 1, -1, 1, -1, 1, -1, 1, -1, 1 >>
\* squares of the normalisation constants in 1/2^24: of the shader factors times pi, and of the irradiance factors
C2 == << 1335089, 4005267, 4005267, 4005267, 20026337, 20026337, 1668861, 20026337, 5006584 >>
K2 == << 13176795, 17569060, 17569060, 17569060, 343146, 1372583, 4117748, 1372583, 343146 >>
Consts ==
  /\ Is("shconst")
  /\ \A i \in 1..9 : /\ E.c[i] * Signs[i] > 0 /\ Near(E.c[i] * E.c[i], C2[i], 2 * Abs(E.c[i]) + 8)
                     /\ E.k[i] > 0 /\ Near(E.k[i] * E.k[i], K2[i], 2 * E.k[i] + 8)
                     /\ E.idx[i] = i - 1
  /\ E.count = << 3, 9 >> /\ E.lanes
Rotate ==
  /\ Is("shrot")
  /\ LET R == Rot(E.u)  N == QNorm(E.u) IN
     /\ E.alias
     /\ \A p \in 1..Len(Probes) : LET v == Probes[p][1]  n == Probes[p][2]  w == ApplyT(R, v) IN
          Near(Sh(E.r, v, n) * N * N, 1024 * Sh(E.q, w, n * N), 16 * n * n * N * N)
Wnd == Is("window") /\ \A i \in 1..9 : Near(E.r[i], E.q[i] * Window(Band(i), E.w), 80 * Abs(E.q[i]) + 8)
Sinc ==
  /\ Is("sinc")
  /\ \A i \in 1..Len(E.w) : /\ 0 <= E.r[i] /\ E.r[i] <= 65536 /\ (E.l = 0 => E.r[i] = 65536) /\ (E.l * 256 >= E.w[i] /\ E.l > 0 => E.r[i] = 0)
                            /\ i > 1 => E.w[i - 1] <= E.w[i] /\ E.r[i - 1] <= E.r[i]
                            /\ E.w[i] % 256 = 0 /\ (E.w[i] \div 256) \in {3, 4, 6, 8, 12} => Near(E.r[i], Window(E.l, E.w[i] \div 256), 80)
Area ==
  /\ Is("area")                                        \* solid angles of all texels of one face, in 1/2^24 (2 pi / 3 = 2.0943951)
  /\ LET n == E.n  at(x, y) == E.a[y * n + x + 1] IN
     /\ \A x, y \in 0..(n - 1) : at(x, y) > 0 /\ Near(at(x, y), at(n - 1 - x, y), 64) /\ Near(at(x, y), at(y, x), 64)
     /\ Near(FoldLeft(LAMBDA s, k : s + E.a[k], 0, [k \in 1..(n * n) |-> k]), 35138119, 300 * n)
     /\ \A x, y \in 0..(n - 1) : Near(E.split[y * n + x + 1], at(x, y), 256)
     \* towards the centre of the face texels grow
     /\ \A y \in 0..(n - 1) : \A x \in 1..((n \div 2) - 1) : at(x, y) > at(x - 1, y)
\* the minimum of c + b t + e (3 t^2 - 1), t the cosine to the axis, in 1/1024 (an arch, e < 0, only where it is nowhere negative)
ZonalMin(c, b, e) == IF Abs(b) <= 6 * e THEN 1024 * (c - e) - (1024 * b * b) \div (12 * e) ELSE 1024 * (c - Abs(b) + 2 * e)
Zonal ==
  /\ Is("shmin")
  /\ Near(E.r, ZonalMin(E.c, E.b, E.e), 16)
\* damping: one factor per band and the same for all channels, none for the constant band, at least that of cutoff 3
Dering ==
  /\ Is("dering")
  /\ \A ch \in 1..4, i \in 1..9 :
       LET w == E.w[Band(i) + 1] IN Near(E.r[ch][i], E.q[ch][i] * w, 8 * Abs(E.q[ch][i]) + 8)
  /\ E.w[1] = 65536 /\ E.w[2] >= Window(1, 3) - 80 /\ E.w[3] >= Window(2, 3) - 80 /\ E.w[3] <= E.w[2] /\ E.w[2] <= 65536
  \* functions that are zonal about their linear band: nonnegative afterwards unless damped to the limit, damped no more than
  \* needed (the cutoff is found to 0.1), and hardly touched when they were nonnegative
  /\ LET w1 == E.w[2] \div 64  w2 == E.w[3] \div 64
         after(z) == LET B == z[2] * w1  Q == z[3] * w2 IN
                     IF Abs(B) <= 6 * Q THEN 1024 * z[1] - Q - (B * B) \div (12 * Q) ELSE 1024 * z[1] - Abs(B) + 2 * Q
         slack(z) == 70 * (Abs(z[2]) + Abs(z[3])) IN
     E.zonal => /\ (\A ch \in 1..3 : ZonalMin(E.z[ch][1], E.z[ch][2], E.z[ch][3]) >= 16) => E.w[2] >= 62000
                /\ E.w[2] > Window(1, 3) + 1500 => \A ch \in 1..3 : after(E.z[ch]) >= -24
                /\ E.w[2] < 62000 => \E ch \in 1..3 : after(E.z[ch]) <= slack(E.z[ch])
------------------------------------------------------------------------------
(* R04 *)
Srgb ==
  /\ Is("srgb")
  /\ \A i \in 1..3 : /\ Near(E.lin[i], SrgbTable[E.k[i] + 1], 24) /\ Near(E.back[i], 4096 * E.k[i], 40) /\ Near(E.of[i], 4096 * E.k[i], 40)
  /\ E.alpha = << E.a, E.a, E.a >>
Mono ==
  /\ Is("mono")
  /\ \A j \in 2..Len(E.x) : E.x[j - 1] <= E.x[j] /\ E.f[j - 1] <= E.f[j] + 1 /\ E.g[j - 1] <= E.g[j] + 1
  /\ \A i \in 1..Len(E.x) : 0 <= E.f[i] /\ E.f[i] <= 1048577 /\ 0 <= E.g[i] /\ E.g[i] <= 1048577 /\ E.f[i] + 1 >= E.x[i] /\ E.g[i] <= E.x[i] + 1
\* below zero both are linear: 12.92 f = x, in 1/1024 (f in 1/102400, g in 1/10240000); in bright light (n/d)^5 of the
\* curve is (n/d)^12 of light (roots in 1/65536)
Below ==
  /\ Is("below") /\ E.w = << E.a, E.a >>
  /\ \A i \in 1..3 : /\ Near(E.f[i], 1292 * E.x[i], 2 + Abs(E.x[i]) \div 256) /\ Near(E.g[i] * 12 + (E.g[i] * 23) \div 25, 10000 * E.x[i], 16 + Abs(E.x[i]))
                     /\ Near(E.b1[i], 10000 * E.x[i], 16 + Abs(E.x[i]) * 4) /\ Near(E.b2[i], 100 * E.x[i], 2 + Abs(E.x[i]) \div 32)
Bright == Is("bright") /\ Near(E.g * E.d, 65536 * E.n, 3 * E.d) /\ Near(E.f * E.d, 65536 * E.n, 3 * E.d)
Xyz ==
  /\ Is("xyz")
  /\ \A i \in 1..3 : Near(E.xyz[i], Dot3(RgbXyz[i], E.c), Abs(E.c[1]) + Abs(E.c[2]) + Abs(E.c[3]) + 8) /\ Near(E.back[i], 256 * E.c[i], 24)
Yxy ==
  /\ Is("yxy")
  /\ LET s == E.c[1] + E.c[2] + E.c[3] IN
     /\ E.yxy[1] = 4096 * E.c[2] /\ Near(E.yxy[2] * s, 65536 * E.c[1], s + 8) /\ Near(E.yxy[3] * s, 65536 * E.c[2], s + 8)
     /\ \A i \in 1..3 : Near(E.back[i], 256 * E.c[i], 8)
  /\ E.comp
Gamma ==
  /\ Is("gamma")
  /\ \A i \in 1..3 : /\ Near(E.def[i], GammaTable[E.x[i] + 1], 300) /\ Near(E.one[i], E.x[i] * 65536, 300)
                     /\ LET h == E.half[i] \div 64 IN Near(h * h, E.x[i] * 16777216, 16 * h + 64)
  /\ E.w = << E.a, E.a, E.a >>
TNext == Cube \/ Ham \/ HamHi \/ Samp \/ Ggx \/ Ior \/ Basis \/ Consts \/ Rotate \/ Wnd \/ Sinc \/ Area \/ Zonal \/ Dering \/ Srgb \/ Mono \/ Below \/ Bright \/ Xyz \/ Yxy \/ Gamma
TSpec == TInit /\ [][TNext]_l
=============================================================================
