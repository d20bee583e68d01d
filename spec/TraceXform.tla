----------------------------- MODULE TraceXform -----------------------------
(* Recorded calls of the transform builders, the quaternion and the Euler/look-at functions. *)
EXTENDS Xform, TraceBase
VARIABLES q, l
tvars == << m, q, l >>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == XInit /\ q = << 0, 0, 0, One >> /\ l = 1
Same == UNCHANGED << m, q >>
KeepQ == UNCHANGED q
Around(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
UpToSign(a, b, tol) == Around(a, b, tol) \/ Around(a, [i \in 1..Len(b) |-> -b[i]], tol)
Div(v, k) == [i \in 1..Len(v) |-> v[i] \div k]
Times(v, k) == [i \in 1..Len(v) |-> v[i] * k]

------------------------------------------------------------------------------
(* T01: composing and taking apart model matrices. Exact on the lattice: h is a Hurwitz unit in halves. *)
XParts ==
  /\ Is("xparts") /\ Same
  /\ E.T = TMat(E.t) /\ E.S = SMat(E.s) /\ E.R = RMat(E.h)
XApply ==
  /\ Is("xapply") /\ KeepQ
  /\ m' = (CASE E.k = "mt" -> After(TMat(E.v)) [] E.k = "tm" -> Before(TMat(E.v)) [] E.k = "ms" -> After(SMat(E.v))
             [] E.k = "sm" -> Before(SMat(E.v)) [] E.k = "mr" -> After(RMat(E.h)) [] E.k = "rm" -> Before(RMat(E.h)))
  /\ E.r = m'
XSet == Is("xset") /\ KeepQ /\ m' = WithTranslation(m, E.v) /\ E.r = m' /\ E.get = Position(m')
XCalc == Is("xcalc") /\ KeepQ /\ m' = Model(E.t, E.h, E.s) /\ E.r = m'
\* the same operators on m with w instead of one in its last element
XHom ==
  /\ Is("xhom") /\ Same
  /\ LET h == [m EXCEPT ![4][4] = One * E.w]  T == TMat(E.v)  S == SMat(E.s)
         prod(a, b) == Norm1(MMul(a, b)) IN
     /\ E.mt = prod(h, T) /\ E.ms = prod(h, S) /\ E.sm = prod(S, h)
     /\ E.set = WithTranslation(h, E.t) /\ E.get = Position(m)
XPoint ==
  /\ Is("xpoint") /\ Same
  /\ LET p == Div(MVec(m, << E.v[1], E.v[2], E.v[3], One >>), One) IN E.r = << p[1], p[2], p[3] >>
\* lengths in 1/1024, directions in 1/4096
LenIs(s, sq) == s >= 0 /\ s < 40000 /\ Near(s * s, sq * 4096, 2 * s + 2)
XGet ==
  /\ Is("xget") /\ Same
  /\ E.pos = Position(m) /\ E.pos2 = E.pos
  /\ \A i \in 1..3 : LenIs(E.scale[i], ColSq(m, i))
  /\ E.scale2 = << E.scale[1], E.scale[2] >> /\ E.scale3 = E.scale
  /\ \A c, r \in 1..3 : Near(E.rot[c][r] * E.scale[c], m[c][r] * 262144, E.scale[c] + 4096)
  /\ \A c, r \in 1..3 : Near(RotMat(E.quat)[c][r], E.rot[c][r] * 4096, 32768)
  /\ E.quat2 = E.quat /\ E.border = << 0, 0, 0, 0, 0, 0, One >>
XRigid ==
  /\ Is("xrigid") /\ Same /\ IsRigid(m)
  /\ E.inv = RigidInverse(m) /\ E.only = MapM(LAMBDA x : x, Block(m, 3)) /\ E.pos = Position(m)
  /\ \A c, r \in 1..3 : Near(RotMat(E.quat)[c][r], m[c][r] * 1048576, 32768)
  /\ E.border = << 0, 0, 0, 0, 0, 0, One >>
\* any rotation: quaternion in 1/8192
XQuat ==
  /\ Is("xquat") /\ Same
  /\ Near(QNorm(E.q), 8192 * 8192, 65536)
  /\ \A c, r \in 1..3 : Near(RotMat(E.q)[c][r], E.r[c][r] * 8192, 8192 * 6)
  /\ UpToSign(E.back, E.q, 3)
  /\ \A i \in 1..3 : Near(MVec(E.r, E.v)[i], E.qv[i] * 8, 256)                                   \* v whole, q v in 1/1024
  /\ \A i \in 1..3 : Near(MVec(Transpose(E.r), E.v)[i], E.vq[i] * 8, 256)
XFree ==
  /\ Is("xfree") /\ Same
  /\ E.pos = E.t /\ UpToSign(E.back, E.q, 3) /\ Around(E.scale, Times(E.s, 256), 2)               \* s in quarters, scale in 1/1024

------------------------------------------------------------------------------
(* T02: the quaternion register, in units of 1/16, Hurwitz and whole quaternions *)
QLoad == Is("qload") /\ UNCHANGED m /\ q' = E.p /\ E.r = E.p
QMulStep ==
  /\ Is("qmul") /\ UNCHANGED m
  /\ E.r = Div(QMul(q, E.b), One) /\ E.c = E.r /\ E.refs
  /\ q' = (IF E.keep = 1 THEN E.r ELSE q)
QUn ==
  /\ Is("qun") /\ Same
  /\ E.conj = QConj(q)
  \* inverse and normalised in 1/4096
  /\ LET n == QNorm(q) IN n = 0 \/
     /\ \A i \in 1..4 : Near(E.inv[i], (QConj(q)[i] * One * 4096) \div n, 2)
     /\ \A i \in 1..4 : Near(E.unit[i] * E.len, q[i] * 16384, E.len + Mag(E.unit[i]) + 64)
     /\ E.len > 0 /\ Near(E.len * E.len, 16 * n, 2 * E.len + 2)
\* v scaled to a length next to one: normalised it has length one, its inverse undoes it, and a model built from it is rigid (1/8192)
QNear ==
  /\ Is("qnear") /\ Same
  /\ Near(QNorm(E.unit), 67108864, 24000) /\ E.unit[1] * E.v[1] + E.unit[2] * E.v[2] + E.unit[3] * E.v[3] + E.unit[4] * E.v[4] > 0
  /\ \A i, j \in 1..4 : Near(E.unit[i] * E.v[j], E.unit[j] * E.v[i], Mag(E.v[i]) + Mag(E.v[j]))
  /\ Around(E.ix, << 0, 0, 0, 8192 >>, 1) /\ Around(E.xi, << 0, 0, 0, 8192 >>, 1)
  /\ \A c, r \in 1..3 : Near(RotMat(E.unit)[c][r], E.m[c][r] * 8192, 8192 * 6) /\ Near(E.s[c][r], E.m[c][r], 2)
  /\ \A c \in 1..3 : Near(E.m[c][1] * E.m[c][1] + E.m[c][2] * E.m[c][2] + E.m[c][3] * E.m[c][3], 67108864, 24000)
\* turning by a quaternion of any length from the right is turning by its inverse
QBack == Is("qback") /\ Same /\ Around(E.r, E.i, 2)
QTurn ==
  /\ Is("qturn") /\ Same /\ QNorm(q) = One * One
  /\ E.r = Div(QRot(q, E.v), One * One) /\ E.ri = Div(QRot(QConj(q), E.v), One * One)
\* turning by an angle of k twelfths of pi about a unit axis; components in 1/8192
W == 8192
SinW == << 1069, 2120, 3135, 4096, 4987, 5793, 6499, 7094, 7568, 7913, 8122, 8192 >>   \* W sin(i * 7.5 degrees)
RECURSIVE SinOf(_)
SinOf(i) == IF i < 0 THEN -SinOf(-i) ELSE IF i = 0 THEN 0 ELSE IF i <= 12 THEN SinW[i] ELSE IF i <= 24 THEN SinOf(24 - i) ELSE -SinOf(i - 24)
CosOf(i) == SinOf(12 - i)
QAxis ==
  /\ Is("qaxis") /\ Same
  \* the axis is << ax >> / n with whole ax, n
  /\ \A i \in 1..3 : Near(E.r[i] * E.n, SinOf(E.k) * E.ax[i], 4 * E.n)
  /\ Near(E.r[4], CosOf(E.k), 3)
\* p is at the fraction t/4 of the way from a to b: the turn a -> p, repeated, reaches b the short way round
QDivW(a, b) == Div(QMul(a, QConj(b)), W)
QSlerp ==
  /\ Is("qslerp") /\ Same
  /\ \A k \in 1..5 : Near(QNorm(E.p[k]) \div W, W, 24)
  /\ \A k \in 1..5 : Mag(E.len[k]) <= 3                             \* squared length less one, in 1/2^20
  /\ Around(E.p[1], E.a, 3) /\ UpToSign(E.p[5], E.b, 3)
  /\ LET s == QDivW(E.p[2], E.p[1]) IN
     /\ s[4] >= 7568 - 8
     /\ \A k \in 2..4 : Around(QDivW(E.p[k + 1], E.p[k]), s, 16)
------------------------------------------------------------------------------
(* T03: Euler angles in degrees, look-at frames *)
XEuler ==
  /\ Is("xeuler") /\ Same
  /\ LET X == << SinOf(E.a[1]), CosOf(E.a[1]) >>  Y == << SinOf(E.a[2]), CosOf(E.a[2]) >>  Z == << SinOf(E.a[3]), CosOf(E.a[3]) >>
         zy == Div(QMul(<<0, 0, Z[1], Z[2]>>, <<0, Y[1], 0, Y[2]>>), W) IN
     /\ Around(E.q, Div(QMul(zy, <<X[1], 0, 0, X[2]>>), W), 6)
     /\ UpToSign(E.again, E.q, 12)                              \* the extracted angles are angles of the same rotation
     \* and away from the poles the same angles (units of 1/16 degree); a half turn may come back as either end
     /\ (Mag(E.a[2]) < 6) => \A i \in 1..3 : Near(E.e[i], E.a[i] * 240, 2) \/ Near(Mag(E.e[i] - E.a[i] * 240), 5760, 2)
     /\ E.each = E.e
\* an orthonormal right-handed frame R (columns, in 1/W) that faces along the whole vector f, its second axis on the side of u
Len2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Sum1(v) == Mag(v[1]) + Mag(v[2]) + Mag(v[3])
Orthonormal(R) == /\ \A i, j \in 1..3 : Near(Dot3(R[i], R[j]), IF i = j THEN W * W ELSE 0, 8 * W)
                  /\ Around(Cross3(R[1], R[2]), Times(R[3], W), 8 * W)
Faces(R, f, u) ==
  /\ Orthonormal(R)
  /\ \A i \in 1..3 : Near(Cross3(R[3], f)[i], 0, 4 * Sum1(f)) /\ Dot3(R[3], f) > 0
  /\ Near(Dot3(R[1], u), 0, 4 * Sum1(u) + 8) /\ Dot3(R[2], u) > 0
XLook ==
  /\ Is("xlook") /\ Same
  /\ LET f == [i \in 1..3 |-> E.to[i] - E.from[i]]  R == Transpose(E.view) IN
     /\ Faces(E.fromto, f, E.up) /\ Faces(E.front, f, E.up) /\ Faces(R, f, E.up)
     /\ \A i \in 1..3 : Near(Dot3(R[i], E.from), -E.shift[i] * 8, 8 * Sum1(E.from) + 16)           \* shift in 1/1024
     /\ \A c, r \in 1..3 : Near(RotMat(E.quat)[c][r], E.front[c][r] * W, 8 * W)
     /\ \A i \in 1..3 : E.border[i] = << 0, 0, 0, 0, 0, 0, One >>
\* a degree or less from the poles
XEulerP == Is("xeulerp") /\ Same /\ UpToSign(E.again, E.q, 16)
XNear ==
  /\ Is("xnear") /\ Same
  /\ LET R == [c \in 1..3 |-> Div(RotMat(E.q)[c], W)]  s == << E.f[3], 0, -E.f[1] >> IN
     /\ Near(E.len, W, 4) /\ Faces(E.m, E.f, << 0, 1, 0 >>)
     /\ \A c, r \in 1..3 : Near(R[c][r], E.m[c][r], 8)
     /\ \A i \in 1..3 : Near(Cross3(R[1], s)[i], 0, 8 * Sum1(s))
     /\ Dot3(R[1], s) > 0
\* along up itself every rotation that faces there will do
XAlong ==
  /\ Is("xalong") /\ Same
  /\ LET d == [r \in 1..3 |-> RotMat(E.q)[3][r] \div W] IN
     /\ Near(QNorm(E.q) \div W, W, 8)
     /\ \A i \in 1..3 : Near(Cross3(d, E.f)[i], 0, 8 * Sum1(E.f))
     /\ Dot3(d, E.f) > 0
\* whole degrees, radians in 1/65536, back in 1/1024
XAngle ==
  /\ Is("xangle") /\ Same /\ Len(E.rad) = 14
  /\ \A i \in 1..14 : Near(E.rad[i] * 180, E.deg[i] * 205887, 900) /\ Near(E.back[i], E.deg[i] * 1024, 2)

TNext == XParts \/ XApply \/ XSet \/ XCalc \/ XHom \/ XPoint \/ XGet \/ XRigid \/ XQuat \/ XFree \/ QLoad \/ QMulStep \/ QUn \/ QNear \/ QBack \/ QTurn \/ QAxis \/ QSlerp
         \/ XEuler \/ XEulerP \/ XNear \/ XAlong \/ XLook \/ XAngle
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
