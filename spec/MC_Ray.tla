------------------------------- MODULE MC_Ray -------------------------------
(* Moving and scaling a ray together with a box changes neither whether they meet nor which axes the ray is parallel
   to, along every history; crushing an axis to zero can only create meetings. *)
EXTENDS RayMachine, TLC
CONSTANTS Stale, Depth
VARIABLES ray, bx, hit, crushed, n
vars == << ray, bx, hit, crushed, n >>
U == 4
Between(p, q) == << [i \in Axes |-> Min2(p[i], q[i])], [i \in Axes |-> Max2(p[i], q[i])] >>
Boxes == { << <<0, 0, 0>>, <<1, 1, 1>> >>, << <<-1, 1, 0>>, <<2, 1, 1>> >> }
Init ==
  /\ \E o \in {-1, 0, 2} \X {0, 1} \X {0, 3}, d \in ({-1, 0, 1} \X {-1, 0, 1} \X {0, 1, -2}) \ {Zero3}, b \in Boxes :
       /\ ray = NewRay(o, d, U) /\ bx = << VScale(b[1], U), VScale(b[2], U) >>
       /\ hit = RayHits(bx, ray.o, ray.d)
  /\ crushed = FALSE /\ n = 0
Moves == { <<1, -2, 0>>, <<0, 0, 3>> }
Scales == { <<2, 2, 2>>, <<-1, 1, 2>>, <<1, -1, -1>>, <<0, 1, 1>>, <<1, 2, 0>> }
Divs == { <<2, 2, 2>>, <<-1, 1, -2>> }
Move(k, v) == /\ ray' = RayStepTo(ray, k, v, U)
              /\ LET f(p) == IF k = "add" THEN VAdd(p, VScale(v, U)) ELSE VSub(p, VScale(v, U)) IN bx' = << f(bx[1]), f(bx[2]) >>
              /\ UNCHANGED << hit, crushed >>
Exact(p, v) == \A i \in Axes : p[i] % Abs(v[i]) = 0
Resize(k, v) ==
  /\ k = "div" => \A p \in {ray.o, ray.d, bx[1], bx[2]} : Exact(p, v)
  /\ LET r == RayStepTo(ray, k, v, U)  f(p) == IF k = "mul" THEN VMul(p, v) ELSE VDiv(p, v) IN
     /\ r.d # Zero3
     /\ ray' = IF Stale THEN [r EXCEPT !.par = ray.par] ELSE r
     /\ bx' = Between(f(bx[1]), f(bx[2]))
  /\ crushed' = (crushed \/ \E i \in Axes : v[i] = 0) /\ UNCHANGED hit
Turn(d) == ray' = RayStepTo(ray, "set", d, U) /\ hit' = RayHits(bx, ray.o, VScale(d, U)) /\ crushed' = FALSE /\ UNCHANGED bx
Next == n < Depth /\ n' = n + 1 /\
  ( \/ \E k \in {"add", "sub"}, v \in Moves : Move(k, v)
    \/ \E v \in Scales : Resize("mul", v)
    \/ \E v \in Divs : Resize("div", v)
    \/ \E d \in { <<1, 0, 0>>, <<0, -1, 1>> } : Turn(d) )
Spec == Init /\ [][Next]_vars
MaskInStep == ray.par = Still(ray.d)
Together == LET now == RayHits(bx, ray.o, ray.d) IN IF crushed THEN hit => now ELSE hit = now
\* some histories meet and some do not, so neither answer is trivial
=============================================================================
