------------------------------ MODULE MC_Space ------------------------------
(* Half spaces, culling and cameras mean what they say; one state per case. *)
EXTENDS Geometry, TLC
CONSTANTS What,  \* which kind of case
          Deep   \* all of them, or a selection
VARIABLES case
Normals == ((-1..1) \X (-1..1) \X (-1..1)) \ {Zero3}
Planes == { n \o << d >> : n \in Normals, d \in {-3, -1, 0, 2} }
Boxes == { <<p, q>> \in ((0..1) \X (0..1) \X (-1..0)) \X ((0..2) \X (1..2) \X (0..1)) : IsBox(<<p, q>>) }
Maps == { << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>> >>, << <<0, -1, 0, 2>>, <<1, 0, 0, -1>>, <<0, 0, 1, 0>> >>,
          << <<2, 0, 0, -3>>, <<1, -1, 0, 0>>, <<0, 0, 0, 1>> >>, << <<1, 2, -1, 0>>, <<0, 1, 1, 1>>, <<-1, 0, 2, 0>> >> }
Fovs == (1..2) \X (1..2) \X {1, 3} \X {1, 2} \X (1..2) \X (3..4)
Pts == (-6..6) \X (-3..3) \X (-1..6)
Views == { << <<-1, 2>>, <<-2, 3>>, <<1, 5>> >>, << <<0, 4>>, <<-3, -1>>, <<-2, 2>> >> }
Init ==
  \/ What = "cull" /\ \E b \in Boxes, p \in Planes, q \in { x \in Planes : x[1] = 1 /\ (Deep \/ (x[2] # 1 /\ x[4] \in {-1, 2})) }, m \in Maps :
       (Deep \/ p[1] <= 0) /\ case = [k |-> "cull", b |-> b, p |-> << p, q >>, m |-> m]
  \/ What = "plane" /\ \E p \in Planes, q \in (-2..2) \X (-2..2) \X (-2..2) : case = [k |-> "plane", p |-> p, q |-> q]
  \/ What = "tri" /\ \E t \in ((0..2) \X (0..1) \X (0..2)) \X ((0..2) \X (0..2) \X (0..1)) : case = [k |-> "tri", t |-> << t[1], t[2], <<1, 2, 0>> >>]
  \/ What = "camera" /\ \E c \in 0..2, f \in Fovs, p \in Pts : case = [k |-> "camera", c |-> c, f |-> f, p |-> p]
  \/ What = "ortho" /\ \E c \in 3..4, v \in Views, p \in Pts : case = [k |-> "ortho", c |-> c, v |-> v, p |-> p]
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
Inside(b) == (b[1][1]..b[2][1]) \X (b[1][2]..b[2][2]) \X (b[1][3]..b[2][3])
\* the corners decide for the whole box, and a visible box is never culled
CullMeaning == case.k = "cull" =>
  LET img(p) == Affine(case.m, p)  culled == BehindAny(case.p, { img(c) : c \in Corners(case.b) }) IN
  /\ culled <=> \E i \in 1..2 : \A p \in Inside(case.b) : Side(case.p[i], img(p)) < 0
  /\ culled => \A p \in Inside(case.b) : \E i \in 1..2 : Side(case.p[i], img(p)) < 0
\* normalising changes no side; the foot of the perpendicular is on the plane and nothing on the plane is nearer
PlaneMeaning == case.k = "plane" =>
  LET n == N3(case.p)  nn == Dot(n, n)  s == Side(case.p, case.q)
      c == VSub(VScale(case.q, nn), VScale(n, s))          \* the foot, times nn
  IN /\ \A k \in 1..3 : Sign(Side(VScale(case.p, k), case.q)) = Sign(s)
     /\ Dot(n, c) + nn * case.p[4] = 0
     /\ \A x \in (-3..3) \X (-3..3) \X (-3..3) : Side(case.p, x) = 0 =>
          LET e == VSub(case.q, x) IN s * s <= Dot(e, e) * nn
TriMeaning == case.k = "tri" =>
  LET t == case.t  n == TriNormal(t)  p == n \o << -Dot(n, t[1]) >> IN \A i \in Axes : Side(p, t[i]) = 0
\* the clip volume of a perspective camera is its view pyramid between near and far
CameraMeaning == case.k = "camera" =>
  LET f == case.f  p == case.p  z == p[3]
      sides == ClipSides(CamRows(case.c, f, << >>, << >>, << >>), p)
      in(i) == sides[i] >= 0
      far == case.c = 2 \/ z <= f[6]
  IN /\ z > 0 => ((in(1) /\ in(2)) <=> Abs(p[1]) * f[2] * f[4] <= z * f[1] * f[3])
     /\ z > 0 => ((in(3) /\ in(4)) <=> Abs(p[2]) * f[2] <= z * f[1])
     /\ z > 0 => ((in(5) /\ in(6)) <=> (f[5] <= z /\ far))
     /\ z = f[5] => IF case.c = 0 THEN sides[5] = 0 ELSE sides[6] = 0      \* near: depth zero, or one when reversed
     /\ (z = f[6] /\ case.c < 2) => IF case.c = 0 THEN sides[6] = 0 ELSE sides[5] = 0
OrthoMeaning == case.k = "ortho" =>
  LET v == case.v  p == case.p  sides == ClipSides(CamRows(case.c, << >>, v[1], v[2], v[3]), p) IN
  /\ (\A i \in 1..6 : sides[i] >= 0) <=> \A i \in Axes : v[i][1] <= p[i] /\ p[i] <= v[i][2]
  /\ p[3] = v[3][1] => sides[IF case.c = 3 THEN 5 ELSE 6] = 0
=============================================================================
