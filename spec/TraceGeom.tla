------------------------------ MODULE TraceGeom ------------------------------
(* Recorded calls of the geometric primitives are steps of the box machine or agree with Geometry. *)
EXTENDS Aabb, RayMachine, TraceBase
VARIABLES l
tvars == << box, l >>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == Init /\ l = 1
Args(from) == << E.a[from], E.a[from + 1], E.a[from + 2] >>

------------------------------------------------------------------------------
(* A01 *)
Reported == /\ box' = << E.lo, E.hi >>
            /\ E.size = BoxExt(box') /\ E.pos2 = VAdd(E.lo, E.hi) /\ E.pos2b = E.pos2
            /\ E.ext2 = BoxExt(box') /\ E.ext2b = E.ext2
            /\ E.area = 2 * HalfArea(box') /\ E.vol = Volume(box')
BoxNew == Is("boxnew") /\ box' = << Zero3, Zero3 >> /\ Reported
BoxStep == Is("box") /\ CASE
     E.k = 1 -> Set(Box6(E.a))
  [] E.k = 2 -> TrySet(Box6(E.a), E.ret = 1)
  [] E.k = 3 -> SetLo(E.a)
  [] E.k = 4 -> SetHi(E.a)
  [] E.k = 5 -> SetSize(Args(1), Args(4))
  [] E.k = 6 -> SetExtent(Half(Args(1)), Args(4))
  [] E.k = 7 -> ExtendPoint(E.a)
  [] E.k = 8 -> ExtendBox(Box6(E.a))
  [] E.k = 9 -> ShrinkPoint(E.a)
  [] E.k = 10 -> ShrinkBox(Box6(E.a))
  [] E.k = 11 -> Translate(E.a)
  [] E.k = 12 -> Scale(E.a)
  [] E.k = 13 -> Divide(E.a)
  [] E.k = 14 -> SetSize(E.a, Zero3)
  [] E.k = 15 -> SetExtent(Half(E.a), Zero3)
BoxQuery ==
  /\ Is("boxq") /\ UNCHANGED box
  /\ LET c == Box6(E.c) IN
     /\ E.in = InBox(box, E.p) /\ E.inb = BoxIn(box, c) /\ E.meet = BoxMeet(box, c) /\ E.meet2 = E.meet
     /\ E.near = Clamp(box, E.p) /\ E.eq /\ ~E.ne /\ E.eqc /\ E.eqo = << box = c, box # c, FALSE, TRUE >>
OpenBox ==
  /\ Is("open") /\ UNCHANGED box
  /\ LET b == Box6(E.b)  c == Box6(E.c)  p == E.p IN
     /\ E.in = InBox(b, p) /\ E.inb = BoxIn(b, c) /\ E.meet = BoxMeet(b, c) /\ E.meet2 = E.meet /\ E.near = Clamp(b, p)
     /\ Box6(E.ep) = BoxUnion(b, << p, p >>) /\ Box6(E.ec) = BoxUnion(b, c) /\ (BoxMeet(b, c) => Box6(E.sc) = BoxSect(b, c))
     /\ E.eq = (b = c) /\ E.ne = (b # c)
Splat(x) == << x, x, x >>
BoxConst ==
  /\ Is("boxconst") /\ UNCHANGED box
  /\ LET v(lo, hi) == E.lo = Splat(lo) /\ E.hi = Splat(hi) IN       \* in quarters; 5 and -5 stand for +-max
     CASE E.name \in {"zero", "default"} -> v(0, 0)
       [] E.name = "one" -> v(-2, 2) [] E.name = "two" -> v(-4, 4) [] E.name = "half" -> v(-1, 1)
       [] E.name = "full" -> v(-5, 5) [] E.name = "inf" -> v(-2000000002, 2000000002)

------------------------------------------------------------------------------
(* A02 *)
Inf == 5000001
\* x is the rational q (times scale), exactly or within a tolerance
IsExact(x, q, s) == x * q[2] = q[1] * s
IsNear(x, q, s) == Abs(x * q[2] - q[1] * s) <= 2 * q[2]
RayStep ==
  /\ Is("ray") /\ UNCHANGED box
  /\ LET b == Box6(E.b)  hit == RayHits(b, E.o, E.d)
         ti == TIn(b, E.o, E.d)  to == TOut(b, E.o, E.d)
         same == E.hit = E.hit2 /\ E.hit = E.hiti
         missed(x) == x = << Inf, -Inf >>
     IN /\ \A i \in Axes : E.par[i] = IF E.d[i] = 0 THEN 1 ELSE 0
        /\ same
        /\ IF E.len = 0 THEN     \* direction d / 8, exact; t counted in 1/32
              /\ E.hit = hit
              /\ IF hit THEN /\ IsExact(E.t[1], ti, 256) /\ IsExact(E.t[2], to, 256) /\ E.ti = E.t
                             /\ E.t1 = E.t[1] /\ E.ti1 = E.t[1]
                 ELSE missed(E.t) /\ missed(E.ti) /\ E.t1 = Inf /\ E.ti1 = Inf
           ELSE                   \* unit direction d / len; t counted in 1/1024
              /\ E.hit = hit \/ Grazing(b, E.o, E.d)
              /\ IF E.hit THEN /\ \A x \in {E.t[1], E.ti[1], E.t1, E.ti1} : IsNear(x, ti, 1024 * E.len)
                               /\ \A x \in {E.t[2], E.ti[2]} : IsNear(x, to, 1024 * E.len)
                 ELSE missed(E.t) /\ missed(E.ti) /\ E.t1 = Inf /\ E.ti1 = Inf
\* boxes without some of their faces, which are at 10000: further than anything else
OpenRay == Is("openray") /\ UNCHANGED box /\ LET hit == RayHits(Box6(E.b), E.o, E.d) IN E.hit = << hit, hit, hit, hit >>
RayConst ==
  /\ Is("rayconst") /\ UNCHANGED box /\ E.o = Zero3
  /\ E.d = CASE E.name = "left" -> <<-1, 0, 0>> [] E.name = "right" -> <<1, 0, 0>>
             [] E.name = "bottom" -> <<0, -1, 0>> [] E.name = "top" -> <<0, 1, 0>>
             [] E.name = "back" -> <<0, 0, -1>> [] E.name = "front" -> <<0, 0, 1>>
\* a history of calls ends where the ray machine ends (1/16): same origin, same directed line, same parallel axes,
\* equal to a ray made afresh, meeting the same boxes
RayHist ==
  /\ Is("rayhist") /\ UNCHANGED box
  /\ LET z == RayAfter(NewRay(E.o, E.d, 16), [i \in 1..Len(E.ks) |-> << E.ks[i], << E.vs[3*i-2], E.vs[3*i-1], E.vs[3*i] >> >>], 16)
         m == Max2(Abs(z.d[1]), Max2(Abs(z.d[2]), Abs(z.d[3])))
         b == << VScale(<<E.b[1], E.b[2], E.b[3]>>, 16), VScale(<<E.b[4], E.b[5], E.b[6]>>, 16) >>
     IN /\ E.fo = z.o /\ E.kept /\ \A i \in 1..Len(E.lens) : Close(E.lens[i], 4096, 2)   \* moving turns nothing; normalised is of length one
        /\ \A i \in Axes : Abs(E.fd[i] * m - 1024 * z.d[i]) <= 2 * m /\ (E.fd[i] = 0) = (z.d[i] = 0)
        /\ \A i \in Axes : E.par[i] = IF z.par[i] THEN 1 ELSE 0
        /\ E.fresh
        /\ E.hit = RayHits(b, z.o, z.d) \/ Grazing(b, z.o, z.d)
RayNorm == Is("raynorm") /\ UNCHANGED box /\ \A u \in { E.u, E.u2, E.u3 } : \A i \in Axes : Abs(u[i] * E.len - 4096 * E.d[i]) <= 2 * E.len

------------------------------------------------------------------------------
(* A03, A04 *)
TriStep ==
  /\ Is("tribox") /\ UNCHANGED box
  /\ LET b == Around(E.pos, E.ext)  t == << Args3(E.t, 1), Args3(E.t, 4), Args3(E.t, 7) >> IN E.hit = TriMeetsBox(b, t)
CullStep ==
  /\ Is("cull") /\ UNCHANGED box
  /\ E.behind = BehindAny(E.planes, { Affine(E.m, c) : c \in Corners(Box6(E.b)) })

------------------------------------------------------------------------------
(* G01 *)
\* u (unit vector in 1/8192) points along n
UnitAlong(u, n) == LET m == Max2(Abs(n[1]), Max2(Abs(n[2]), Abs(n[3])))  ll == Dot(n, n) IN
  /\ Abs(Dot(u, u) - 67108864) <= 60000
  /\ \A i \in Axes : Abs(Cross(u, n)[i]) <= 2 * m * 2
  /\ Dot(u, n) > 0
\* d (in 1/8192) is dist / |n| : d |n| along n's own scale, compared on the unit normal's largest axis
SameRatio(u, d, n, dist) == \A i \in Axes : Abs(d * n[i] - u[i] * dist) <= 4 * (Abs(n[i]) + Abs(dist)) + 4
PlaneConst ==
  /\ Is("planeconst") /\ UNCHANGED box /\ E.d = 0
  /\ E.n = CASE E.name = "left" -> <<-1, 0, 0>> [] E.name = "right" -> <<1, 0, 0>>
             [] E.name = "bottom" -> <<0, -1, 0>> [] E.name = "top" -> <<0, 1, 0>>
             [] E.name = "back" -> <<0, 0, -1>> [] E.name = "front" -> <<0, 0, 1>>
PlaneStep == Is("plane") /\ UNCHANGED box /\ E.dist = Side(E.p, E.q) /\ E.n = N3(E.p) /\ E.d = E.p[4]
SamePlane == Is("sameplane") /\ UNCHANGED box /\ E.eq = (E.x = E.y) /\ E.ne = ~E.eq
PlaneNorm ==
  /\ Is("planenorm") /\ UNCHANGED box
  /\ UnitAlong(E.n, N3(E.p)) /\ SameRatio(E.n, E.d, N3(E.p), E.p[4]) /\ VClose(E.n2, E.n, 1) /\ Close(E.d2, E.d, 2) /\ E.rest
PlaneUnit ==
  /\ Is("planeunit") /\ UNCHANGED box
  /\ UnitAlong(E.n, N3(E.p)) /\ E.d = E.p[4] /\ UnitAlong(E.n2, N3(E.p)) /\ E.d2 = E.p[4]
PlaneTri ==
  /\ Is("planetri") /\ UNCHANGED box
  /\ LET t == << Args3(E.t, 1), Args3(E.t, 4), Args3(E.t, 7) >> IN
     UnitAlong(E.n, TriNormal(t)) /\ \A k \in Axes : Abs(E.dist[k]) <= 4
\* corners on one line
PlaneFlat == Is("planeflat") /\ UNCHANGED box /\ \A k \in Axes : Abs(E.dist[k]) <= 4
\* c (in 1/256) lies on the plane and q - c is normal to it
PlaneNear ==
  /\ Is("planenear") /\ UNCHANGED box
  /\ LET n == N3(E.p)  q == VScale(E.q, 256)  tol == 4 * (Abs(n[1]) + Abs(n[2]) + Abs(n[3])) IN
     /\ Abs(Dot(n, E.c) + 256 * E.p[4]) <= tol
     /\ \A i \in Axes : Abs(Cross(n, VSub(q, E.c))[i]) <= tol

------------------------------------------------------------------------------
(* G02; points scaled by 256 *)
S256(v) == VScale(v, 256)
NearLine ==
  /\ Is("nearline") /\ UNCHANGED box
  /\ LET d == VSub(E.b, E.a)  m == Max2(Abs(d[1]), Max2(Abs(d[2]), Abs(d[3])))
         n == Dot(VSub(E.q, E.a), d)  dd == Dot(d, d)
         \* the closest parameter of the carrier, clamped to the segment: n / dd
         k == IF n < 0 THEN 0 ELSE IF n > dd THEN dd ELSE n
     IN /\ E.dir = d
        /\ \A i \in Axes : Abs(E.c[i] * dd - 256 * (E.a[i] * dd + k * d[i])) <= 2 * dd
        /\ VClose(E.c2, E.c, 1)
        /\ Abs(E.t * dd - 256 * n) <= 2 * dd
        /\ Abs(Dot(E.unit, E.unit) - 16777216) <= 30000 /\ Dot(E.unit, d) > 0
        /\ \A i \in Axes : Abs(Cross(E.unit, d)[i]) <= 4 * m
NearRay ==
  /\ Is("nearray") /\ UNCHANGED box
  /\ LET n == Dot(VSub(E.q, E.o), E.d)  dd == Dot(E.d, E.d)  k == IF n < 0 THEN 0 ELSE n IN
     \A i \in Axes : Abs(E.c[i] * dd - 256 * (E.o[i] * dd + k * E.d[i])) <= 2 * dd
\* far away from the origin of space the ray is the same ray: everything relative to its origin, result in 1/8
FarRay ==
  /\ Is("farray") /\ UNCHANGED box
  /\ LET n == Dot(E.q, E.d)  dd == Dot(E.d, E.d)  k == IF n < 0 THEN 0 ELSE n IN
     \A i \in Axes : Abs(E.c[i] * dd - 8 * k * E.d[i]) <= 2 * dd
SphereStep ==
  /\ Is("sphere") /\ UNCHANGED box /\ E.pos = E.c /\ E.rad = E.r
  /\ E.in = (DistSq(E.c, E.p) < E.r * E.r)
  /\ E.meet = (DistSq(E.c, E.p) <= (E.r + E.r2) * (E.r + E.r2))
  /\ E.meetb = (DistSq(E.c, Clamp(Box6(E.b), E.c)) < E.r * E.r)
NearSphere ==
  /\ Is("nearsphere") /\ UNCHANGED box
  /\ LET v == VSub(E.n, S256(E.c))  w == VSub(E.q, E.c) IN
     /\ Abs(Dot(v, v) - 65536 * E.r * E.r) <= 2000 * E.r + 100
     /\ \A i \in Axes : Abs(Cross(v, w)[i]) <= 80
     /\ Dot(v, w) > 0
TriPoint ==
  /\ Is("tripoint") /\ UNCHANGED box
  /\ LET t == << Args3(E.t, 1), Args3(E.t, 4), Args3(E.t, 7) >>
         sum == [i \in Axes |-> E.bary[1]*t[1][i] + E.bary[2]*t[2][i] + E.bary[3]*t[3][i]] IN
     /\ E.in = InTri(<< VScale(t[1], 1), t[2], t[3] >>, E.p)
     /\ Abs(E.bary[1] + E.bary[2] + E.bary[3] - 1024) <= 3
     /\ \A i \in Axes : Abs(sum[i] - 1024 * E.p[i]) <= 150
     /\ VClose(E.bary, << 256 * (4 - E.ij[1] - E.ij[2]), 256 * E.ij[1], 256 * E.ij[2] >>, 3)
\* c scaled by 64
\* corners a, a + i d, a + j d: the segment between the outermost two, possibly a point
FlatNear ==
  /\ Is("flatnear") /\ UNCHANGED box
  /\ LET lo == SetMin({0, E.ij[1], E.ij[2]})  hi == SetMax({0, E.ij[1], E.ij[2]})
         a == Args3(E.a, 1)  dd == Dot(E.d, E.d)  n == Dot(VSub(E.q, a), E.d)
         k == IF n < lo * dd THEN lo * dd ELSE IF n > hi * dd THEN hi * dd ELSE n
     IN \A i \in Axes : IF dd = 0 THEN E.c[i] = 256 * a[i]
                        ELSE Abs(E.c[i] * dd - 256 * (a[i] * dd + k * E.d[i])) <= 2 * dd
NearTri ==
  /\ Is("neartri") /\ UNCHANGED box
  /\ LET t0 == << Args3(E.t, 1), Args3(E.t, 4), Args3(E.t, 7) >>
         t == << VScale(t0[1], 64), VScale(t0[2], 64), VScale(t0[3], 64) >>
         n == TriNormal(t0)  m == Abs(n[1]) + Abs(n[2]) + Abs(n[3])
         q == VScale(E.q, 64)
     IN \* c is in the triangle ...
        /\ Abs(Dot(n, VSub(E.c, t[1]))) <= 2 * m
        /\ \A k \in Axes : LET e == Edge(t0, k)  inw == Cross(n, e) IN
              \* distance of c outside the edge k, times |inw|
              Dot(inw, VSub(E.c, t[k])) >= -3 * (Abs(inw[1]) + Abs(inw[2]) + Abs(inw[3]))
        \* ... and no vertex leads closer
        /\ NoBetter(E.c, q, { t[1], t[2], t[3] }, 20000)
Op(k, x, v) == CASE k = "+" -> 4 * (x + v) [] k = "-" -> 4 * (x - v) [] k = "*" -> 4 * x * v [] k = "/" -> (4 * x) \div v
Moved ==
  /\ Is("moved") /\ UNCHANGED box
  /\ E.x = [i \in 1..15 |-> Op(E.k, E.src[i], E.v[((i - 1) % 3) + 1])] /\ E.y = E.x
SameStep ==
  /\ Is("same") /\ UNCHANGED box
  /\ LET eq(from, to) == \A i \in from..to : E.x[i] = E.y[i] IN
     /\ E.l = eq(1, 6) /\ E.ln = ~E.l /\ E.t = eq(7, 15) /\ E.tn = ~E.t
NearDot ==
  /\ Is("neardot") /\ UNCHANGED box /\ E.t
  /\ \A i \in Axes : E.c[i] = 256 * E.a[i] /\ E.c2[i] = E.c[i]
CenterSphere ==
  /\ Is("centersphere") /\ UNCHANGED box
  /\ Abs(Dot(E.n, E.n) - 65536 * E.r * E.r) <= 2000 * E.r + 100
SphereRim == Is("sphererim") /\ UNCHANGED box /\ E.below /\ ~E.on /\ ~E.above /\ E.eq /\ E.ne
\* radii in quarters
SphereConst ==
  /\ Is("sphereconst") /\ UNCHANGED box /\ E.c = Zero3
  /\ E.r = CASE E.name = "one" -> 2 [] E.name = "two" -> 4 [] E.name = "half" -> 1 [] E.name = "default" -> 0
\* The origin moves and scales; a translation leaves the direction as it is, a scaling scales it. An operator that
\* makes a new ray may normalize it, so the direction of dy counts only up to its length.
RayOp ==
  /\ Is("rayop") /\ UNCHANGED box /\ E.eq
  /\ LET d4 == [i \in Axes |-> IF E.k \in {"+", "-"} THEN 4 * E.d[i] ELSE Op(E.k, E.d[i], E.v[i])]
         m == Max2(Abs(d4[1]), Max2(Abs(d4[2]), Abs(d4[3])))
         along(u, tol) == \A i \in Axes : Abs(u[i] * m - 1024 * d4[i]) <= tol
     IN /\ E.ox = [i \in Axes |-> Op(E.k, E.o[i], E.v[i])] /\ E.oy = E.ox
        /\ E.dx = d4
        /\ along(E.dy, 2 * m)

------------------------------------------------------------------------------
(* G03; clip space in 1/512 *)
\* n/d times 512
Is512(x, n, d) == Abs(x * d - 512 * n) <= 2 * Abs(d) + (Abs(n) \div 1000)
Camera ==
  /\ Is("camera") /\ UNCHANGED box
  /\ LET c == E.clip
         rows == CamRows(E.k, E.fov, E.w, E.h, E.d)  sc == CamScale(E.k, E.fov, E.w, E.h, E.d)
         sides == << c[4] + c[1], c[4] - c[1], c[4] - c[2], c[4] + c[2], c[3], c[4] - c[3] >>
     IN /\ \A i \in 1..4 : Is512(c[i], Row4(rows[i], E.p), sc)
        /\ c[4] = 512 * (IF E.k < 3 THEN E.p[3] ELSE 1)
        \* the extracted planes are the clip inequalities of the same matrix ...
        /\ VClose(E.dist, sides, 3)
        \* ... and normalizing them keeps the side a point is on; the plane at infinity has no normal
        /\ \A i \in 1..6 : (i = 5 /\ E.k = 2) \/ Sign(E.unit[i]) = Sign(E.dist[i]) \/ Abs(E.dist[i]) <= 4 \/ Abs(E.unit[i]) <= 4
Planes6 == Is("planes6") /\ UNCHANGED box /\ E.dist = ClipSides(E.m, E.p)

TNext == BoxNew \/ (BoxStep /\ Reported) \/ BoxQuery \/ BoxConst \/ OpenBox \/ OpenRay \/ RayStep \/ RayConst \/ RayNorm \/ RayHist \/ TriStep \/ CullStep
         \/ PlaneConst \/ PlaneStep \/ SamePlane \/ PlaneNorm \/ PlaneUnit \/ PlaneTri \/ PlaneFlat \/ PlaneNear
         \/ NearLine \/ NearRay \/ FarRay \/ SphereStep \/ NearSphere \/ TriPoint \/ NearTri \/ FlatNear \/ Moved \/ SameStep \/ NearDot \/ CenterSphere \/ SphereRim \/ SphereConst \/ RayOp \/ Camera \/ Planes6
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
