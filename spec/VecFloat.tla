------------------------------ MODULE VecFloat ------------------------------
(* The float vector register machine: a register of lanes over the extended reals (units of 1/16), changed by assignment,
   lane stores and the compound operators; everything else is a function of the register. *)
EXTENDS XReal
VARIABLES acc
FInit == acc = << 0, 0 >>
Splat(k, n) == [i \in 1..n |-> k]
Map1(F(_), a) == [i \in 1..Len(a) |-> F(a[i])]
Map2(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
All2(F(_, _), a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : F(a[i], b[i])
FLane(f, x, y) == CASE f = "+" -> XAdd(x, y) [] f = "-" -> XSub(x, y) [] f = "*" -> XMul(x, y)
FBin(f, a, b) == [i \in 1..Len(a) |-> FLane(f, a[i], b[i])]
IsBin(f, a, b, r) == IF f = "/" THEN Len(r) = Len(a) /\ \A i \in 1..Len(a) : QuotIs(a[i], b[i], r[i], 4096)
                     ELSE r = FBin(f, a, b)
Load(a) == acc' = a
Fill(v) == acc' = Splat(v, Len(acc))
SetLane(i, v) == acc' = [acc EXCEPT ![i] = v]
Compound(f, b) == acc' = FBin(f, acc, b)
\* sums of products over the first n lanes; the operands are multiples of 1/4, so the result is in 1/16
RECURSIVE SumP(_, _, _)
SumP(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + SumP(a, b, n - 1)
DotN(a, b, n) == SumP(a, b, n) \div One
Diff(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
\* r = sqrt(q / u2) in units 1/s given r^2 * u2 ~ q * s^2
RootIs(r, q) == r >= 0 /\ Near(r * r, q, 2 * r + 2)
=============================================================================
