------------------------------ MODULE Geometry ------------------------------
(* Exact decision procedures and characterisations for the geometric primitives, on integer coordinates.
   Everything here is independent of how the implementation computes it; MC_Geometry proves the decision
   procedures equivalent to their set-theoretic meaning on small grids. *)
EXTENDS Geo

------------------------------------------------------------------------------
(* rays: the points o + t d, t >= 0, against a closed box.  Rationals are <<n, d>> with d > 0. *)
RLe(x, y) == x[1] * y[2] <= y[1] * x[2]
RLt(x, y) == x[1] * y[2] < y[1] * x[2]
REq(x, y) == x[1] * y[2] = y[1] * x[2]
RMax(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
RMin(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
Slant(d) == { i \in Axes : d[i] # 0 }
Enter(b, o, d, i) == IF d[i] > 0 THEN << b[1][i] - o[i], d[i] >> ELSE << o[i] - b[2][i], -d[i] >>
Leave(b, o, d, i) == IF d[i] > 0 THEN << b[2][i] - o[i], d[i] >> ELSE << o[i] - b[1][i], -d[i] >>
TIn(b, o, d) == RMax({ Enter(b, o, d, i) : i \in Slant(d) })
TOut(b, o, d) == RMin({ Leave(b, o, d, i) : i \in Slant(d) })
InSlabs(b, o, d) == \A i \in Axes \ Slant(d) : b[1][i] <= o[i] /\ o[i] <= b[2][i]
RayHits(b, o, d) == InSlabs(b, o, d) /\ RLe(TIn(b, o, d), TOut(b, o, d)) /\ TOut(b, o, d)[1] >= 0
\* the exact answer sits on the edge of the decision: only exact arithmetic can be expected to reproduce it
Grazing(b, o, d) == InSlabs(b, o, d) /\ (REq(TIn(b, o, d), TOut(b, o, d)) \/ TOut(b, o, d)[1] = 0)

------------------------------------------------------------------------------
(* a closed triangle <<p0, p1, p2>> against a closed box: separating axes *)
Unit3(i) == [k \in Axes |-> IF k = i THEN 1 ELSE 0]
Edge(t, i) == VSub(t[(i % 3) + 1], t[i])
SatAxes(t) == { Unit3(i) : i \in Axes } \cup { Cross(Edge(t, 1), Edge(t, 2)) }
              \cup { Cross(Unit3(i), Edge(t, k)) : i \in Axes, k \in Axes }
Apart(a, b, t) ==
  LET P == { Dot(a, t[k]) : k \in Axes }  Q == { Dot(a, c) : c \in Corners(b) }
  IN SetMax(P) < SetMin(Q) \/ SetMax(Q) < SetMin(P)
TriMeetsBox(b, t) == \A a \in SatAxes(t) : ~Apart(a, b, t)

(* the same question answered by where the two shapes can touch: a vertex inside the box, an edge of the
   triangle through the box, or an edge of the box through the triangle *)
SegMeetsBox(b, p, q) ==
  LET d == VSub(q, p) IN
  IF d = Zero3 THEN InBox(b, p)
  ELSE RayHits(b, p, d) /\ RLe(TIn(b, p, d), <<1, 1>>)
TriNormal(t) == Cross(VSub(t[2], t[1]), VSub(t[3], t[1]))
\* p in the plane of t, t not degenerate
InTri(t, p) == LET n == TriNormal(t) IN \A k \in Axes : Dot(n, Cross(Edge(t, k), VSub(p, t[k]))) >= 0
SegMeetsTri(t, p, q) ==
  LET n == TriNormal(t)  a == Dot(n, VSub(p, t[1]))  c == Dot(n, VSub(q, t[1])) IN
  IF n = Zero3 \/ a * c > 0 \/ (a = 0 /\ c = 0) THEN FALSE
  ELSE \* the crossing point is (p*c - q*a) / (c - a); scale everything by c - a
       LET s == c - a  x == VSub(VScale(p, c), VScale(q, a)) IN
       \A k \in Axes : Sign(s) * Dot(n, Cross(Edge(t, k), VSub(x, VScale(t[k], s)))) >= 0
BoxEdges(b) == { pq \in Corners(b) \X Corners(b) : Cardinality({ i \in Axes : pq[1][i] # pq[2][i] }) = 1 }
TriMeetsBoxByContact(b, t) ==
  \/ \E k \in Axes : SegMeetsBox(b, t[k], t[(k % 3) + 1])
  \/ \E e \in BoxEdges(b) : SegMeetsTri(t, e[1], e[2])

------------------------------------------------------------------------------
(* half spaces <<n1, n2, n3, d>> : n.p + d *)
Side(pl, p) == pl[1]*p[1] + pl[2]*p[2] + pl[3]*p[3] + pl[4]
BehindAny(planes, pts) == \E k \in 1..Len(planes) : \A p \in pts : Side(planes[k], p) < 0
\* rows of an affine map
Affine(m, p) == [i \in Axes |-> m[i][1]*p[1] + m[i][2]*p[2] + m[i][3]*p[3] + m[i][4]]
Row4(row, p) == row[1]*p[1] + row[2]*p[2] + row[3]*p[3] + row[4]
\* clip space of a homogeneous matrix (rows m): inside iff all of these are >= 0.  Vulkan: y points down.
ClipSides(m, p) == LET x == Row4(m[1], p)  y == Row4(m[2], p)  z == Row4(m[3], p)  w == Row4(m[4], p)
                   IN << w + x, w - x, w - y, w + y, z, w - z >>
N3(p) == << p[1], p[2], p[3] >>
(* The rows of a projection, times a positive whole number.  kind: 0 perspective, 1 the same with reversed depth, 2 reversed and
   without far plane, 3 orthographic, 4 the same with reversed depth.  fov: tangent of half the angle fov[1]/fov[2], aspect
   fov[3]/fov[4], near, far;  w, h, d: the two ends of an orthographic box.  The viewer looks along +z, y points up in the
   view and down on the screen. *)
CamScale(kind, fov, w, h, d) ==
  IF kind < 3 THEN fov[1] * fov[3] * (IF kind = 2 THEN 1 ELSE fov[6] - fov[5]) ELSE (w[2] - w[1]) * (h[2] - h[1]) * (d[2] - d[1])
CamRows(kind, fov, w, h, d) ==
  LET s == CamScale(kind, fov, w, h, d) IN
  IF kind < 3 THEN
    LET t == fov[1]  td == fov[2]  an == fov[3]  ad == fov[4]  nr == fov[5]  fr == fov[6]
        q == IF kind = 2 THEN 1 ELSE fr - nr  ta == t * an IN
    << << td * ad * q, 0, 0, 0 >>, << 0, -(td * an * q), 0, 0 >>,
       CASE kind = 0 -> << 0, 0, fr * ta, -(fr * nr * ta) >>
         [] kind = 1 -> << 0, 0, -(nr * ta), nr * fr * ta >>
         [] kind = 2 -> << 0, 0, 0, nr * ta >>,
       << 0, 0, s, 0 >> >>
  ELSE
    LET dw == w[2] - w[1]  dh == h[2] - h[1]  dd == d[2] - d[1] IN
    << << 2 * dh * dd, 0, 0, -((w[1] + w[2]) * dh * dd) >>, << 0, -(2 * dw * dd), 0, (h[1] + h[2]) * dw * dd >>,
       IF kind = 3 THEN << 0, 0, dw * dh, -(d[1] * dw * dh) >> ELSE << 0, 0, -(dw * dh), d[2] * dw * dh >>,
       << 0, 0, 0, s >> >>

------------------------------------------------------------------------------
(* closest points are characterised, not computed: c is the point of a convex set K closest to q iff c is in K
   and no vertex (direction) of K leads towards q:  (q-c).(v-c) <= 0.  Coordinates may be scaled. *)
NoBetter(c, q, V, eps) == \A v \in V : Dot(VSub(q, c), VSub(v, c)) <= eps
Close(a, b, eps) == Abs(a - b) <= eps
VClose(a, b, eps) == \A i \in 1..Len(a) : Close(a[i], b[i], eps)
=============================================================================
