-------------------------------- MODULE Light -------------------------------
(* Image based lighting in exact integers: the cube map face convention, low discrepancy samples, real spherical harmonics
   of three bands as polynomials on the sphere, their rotation and windowing, and colour spaces. *)
EXTENDS Integers, Sequences, SequencesExt, ColorTables
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == LET d == a - b IN -t <= d /\ d <= t
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
------------------------------------------------------------------------------
(* Cube maps (the OpenGL/Vulkan table): face, then the direction from (sc, tc, ma) and back. *)
FaceDir(f, sc, tc, ma) ==
  CASE f = 0 -> << ma, -tc, -sc >> [] f = 1 -> << -ma, -tc, sc >> [] f = 2 -> << sc, ma, tc >>
    [] f = 3 -> << sc, -ma, -tc >> [] f = 4 -> << sc, -tc, ma >> [] f = 5 -> << -sc, -tc, -ma >>
TexelDir(f, x, y, n) == FaceDir(f, 2*x + 1 - n, 2*y + 1 - n, n)
FaceOf(d) == LET ax == Abs(d[1])  ay == Abs(d[2])  az == Abs(d[3]) IN
  IF ax > ay /\ ax > az THEN (IF d[1] > 0 THEN 0 ELSE 1) ELSE IF ay > az THEN (IF d[2] > 0 THEN 2 ELSE 3) ELSE (IF d[3] > 0 THEN 4 ELSE 5)
ScTc(f, d) == CASE f = 0 -> << -d[3], -d[2] >> [] f = 1 -> << d[3], -d[2] >> [] f = 2 -> << d[1], d[3] >>
                [] f = 3 -> << d[1], -d[3] >> [] f = 4 -> << d[1], -d[2] >> [] f = 5 -> << -d[1], -d[2] >>
\* the texel of an n by n cube map a direction samples
TexelOf(d, n) == LET f == FaceOf(d)  c == ScTc(f, d)  ma == Abs(d[(f \div 2) + 1]) IN
  << f, ((c[1] + ma) * n) \div (2 * ma), ((c[2] + ma) * n) \div (2 * ma) >>
------------------------------------------------------------------------------
(* Samples *)
RECURSIVE RevBits(_, _)
RevBits(x, n) == IF n = 0 THEN 0 ELSE (x % 2) * 2^(n - 1) + RevBits(x \div 2, n - 1)
------------------------------------------------------------------------------
(* Spherical harmonics: coefficients q[0..8] (stored 1..9) of the polynomials below, homogenised with the norm n of the
   integer direction v, so that Sh(q, v, n) is n^2 times the value at v/n. *)
Poly(v, n) == LET x == v[1]  y == v[2]  z == v[3] IN
  << n*n, -n*y, n*z, -n*x, x*y, -y*z, 3*z*z - n*n, -x*z, x*x - y*y >>
Sh(q, v, n) == LET p == Poly(v, n) IN FoldLeft(LAMBDA a, k : a + q[k] * p[k], 0, << 1, 2, 3, 4, 5, 6, 7, 8, 9 >>)
\* the library's unnormalised basis (associated Legendre polynomials without the Condon-Shortley factor undone)
BasisScale == << 2, 2, 2, 2, 12, 6, 1, 6, 6 >>                    \* in halves
Basis2(v, n) == LET p == Poly(v, n) IN [k \in 1..9 |-> BasisScale[k] * p[k]]
Band(k) == IF k = 1 THEN 0 ELSE IF k <= 4 THEN 1 ELSE 2            \* of the k-th coefficient
\* directions with integer norm; any band limited function is determined by its values there (MC_Light)
Probes == << << << 1, 0, 0 >>, 1 >>, << << 0, 1, 0 >>, 1 >>, << << 0, 0, 1 >>, 1 >>, << << -1, 0, 0 >>, 1 >>, << << 0, -1, 0 >>, 1 >>, << << 0, 0, -1 >>, 1 >>,
             << << 1, 2, 2 >>, 3 >>, << << -2, 1, 2 >>, 3 >>, << << 2, -2, 1 >>, 3 >>, << << 3, 4, 0 >>, 5 >>, << << 0, 3, -4 >>, 5 >>, << << -4, 0, 3 >>, 5 >>,
             << << 2, -3, 6 >>, 7 >>, << << -6, -2, -3 >>, 7 >>, << << 3, 6, -2 >>, 7 >> >>
\* rotation of integer quaternion u (w last): N * matrix, as rows
QNorm(u) == u[1]*u[1] + u[2]*u[2] + u[3]*u[3] + u[4]*u[4]
Rot(u) == LET x == u[1]  y == u[2]  z == u[3]  w == u[4] IN
  << << w*w + x*x - y*y - z*z, 2*(x*y - z*w), 2*(x*z + y*w) >>, << 2*(x*y + z*w), w*w - x*x + y*y - z*z, 2*(y*z - x*w) >>,
     << 2*(x*z - y*w), 2*(y*z + x*w), w*w - x*x - y*y + z*z >> >>
Apply(R, v) == << Dot3(R[1], v), Dot3(R[2], v), Dot3(R[3], v) >>
ApplyT(R, v) == << R[1][1]*v[1] + R[2][1]*v[2] + R[3][1]*v[3], R[1][2]*v[1] + R[2][2]*v[2] + R[3][2]*v[3], R[1][3]*v[1] + R[2][3]*v[2] + R[3][3]*v[3] >>
\* sinc windows: sin^2(pi/w) in 1/65536 for the cutoffs with known sines; pi^4
Sin2(l, w) == IF l = 0 THEN 0
              ELSE IF l = 1 THEN CASE w = 2 -> 65536 [] w = 3 -> 49152 [] w = 4 -> 32768 [] w = 6 -> 16384 [] w = 8 -> 9598 [] w = 12 -> 4390
              ELSE CASE w = 3 -> 49152 [] w = 4 -> 65536 [] w = 6 -> 49152 [] w = 8 -> 32768 [] w = 12 -> 16384
Window(l, w) == IF l = 0 THEN 65536 ELSE IF l >= w THEN 0       \* in 1/65536: (sin^2 * w^2 / (pi^2 l^2))^2, pi^2 = 9.8696
                ELSE LET s == ((Sin2(l, w) * w * w * 100) \div (l * l * 987)) IN ((s \div 16) * (s \div 16)) \div 256
------------------------------------------------------------------------------
(* Colour spaces: D65 sRGB primaries, in 1/10^4 *)
RgbXyz == << << 4125, 3576, 1804 >>, << 2127, 7152, 722 >>, << 193, 1192, 9503 >> >>
=============================================================================
