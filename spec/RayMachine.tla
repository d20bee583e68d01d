----------------------------- MODULE RayMachine -----------------------------
(* A ray as an object with a history: it is aimed, moved, scaled and normalized in place or into a new ray, and at
   every moment names the axes along which it does not move.  r = [o, d, par], coordinates in 1/U. *)
EXTENDS Geometry, SequencesExt
Still(d) == [i \in Axes |-> d[i] = 0]
Aim(r, d) == [r EXCEPT !.d = d, !.par = Still(d)]
\* exact where used
VDiv(a, b) == [i \in Axes |-> Sign(b[i]) * (IF a[i] < 0 THEN -((-a[i]) \div Abs(b[i])) ELSE a[i] \div Abs(b[i]))]
RayStepTo(r, k, v, u) ==
  CASE k = "set" -> Aim(r, VScale(v, u))
    [] k = "add" -> [r EXCEPT !.o = VAdd(@, VScale(v, u))]
    [] k = "sub" -> [r EXCEPT !.o = VSub(@, VScale(v, u))]
    [] k = "mul" -> [Aim(r, VMul(r.d, v)) EXCEPT !.o = VMul(@, v)]
    [] k = "div" -> [Aim(r, VDiv(r.d, v)) EXCEPT !.o = VDiv(@, v)]
    [] k = "norm" -> r        \* the direction counts up to a positive factor
\* the whole history: ops is a sequence of << k, v >>
RayAfter(r, ops, u) == FoldLeft(LAMBDA x, op : RayStepTo(x, op[1], op[2], u), r, ops)
NewRay(o, d, u) == Aim([o |-> VScale(o, u), d |-> Zero3, par |-> Still(Zero3)], VScale(d, u))
=============================================================================
