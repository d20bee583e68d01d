------------------------------ MODULE TraceVec ------------------------------
(* Recorded calls on the vector types are steps of the register machine. *)
EXTENDS VecInt, Lanes, Keys, TraceBase
VARIABLES l
tvars == << acc, sg, map, rel, l >>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == VInit /\ KInit /\ l = 1
Same == UNCHANGED << acc, sg >>
N == Len(acc)
AsInt(c) == IF c THEN 1 ELSE 0

VLoad == Is("vload") /\ Load(E.a, E.sg) /\ E.r = E.a /\ Len(E.a) = E.n
VFill == Is("vfill") /\ Fill(E.v) /\ acc' = E.r
VSet == Is("vset") /\ SetLane(E.i, E.v) /\ acc' = E.r
VOp ==
  /\ Is("vop")
  /\ LET byv == Bin(E.f, sg, acc, E.b)  bys == Bin(E.f, sg, acc, Splat(E.k, N)) IN
     /\ E.vv = byv /\ E.cv = byv /\ E.vs = bys /\ E.cs = bys /\ E.refs
     /\ IF E.sv = << >> THEN TRUE ELSE E.sv = Bin(E.f, sg, Splat(E.k, N), acc)
  /\ CASE E.keep = 0 -> Same [] E.keep = 1 -> Compound(E.f, E.b) [] E.keep = 2 -> Compound(E.f, Splat(E.k, N))
VRsh == Is("vrsh") /\ Same /\ E.sv = Bin(E.f, sg, Splat(E.k, N), acc)      \* any word shifted by the register
VUn ==
  /\ Is("vun") /\ Same
  /\ (E.neg # << >> => E.neg = [i \in 1..N |-> Signed(WNeg(W(acc[i])))])
  /\ E.not = [i \in 1..N |-> AsInt(acc[i] = 0)] /\ E.com = [i \in 1..N |-> Signed(WNot(W(acc[i])))]
  /\ sg => E.neg # << >>
VCmp ==
  /\ Is("vcmp") /\ Same
  /\ LET s == Splat(E.k, N)
         lt(x, y) == Mask(Below(sg, x, y))  gt(x, y) == Mask(Below(sg, y, x))
         le(x, y) == Mask(~Below(sg, y, x)) ge(x, y) == Mask(~Below(sg, x, y))
     IN /\ E.lt = Map2(lt, acc, E.b) /\ E.lts = Map2(lt, acc, s) /\ E.slt = Map2(lt, s, acc)
        /\ E.gt = Map2(gt, acc, E.b) /\ E.gts = Map2(gt, acc, s) /\ E.sgt = Map2(gt, s, acc)
        /\ E.le = Map2(le, acc, E.b) /\ E.les = Map2(le, acc, s) /\ E.sle = Map2(le, s, acc)
        /\ E.ge = Map2(ge, acc, E.b) /\ E.ges = Map2(ge, acc, s) /\ E.sge = Map2(ge, s, acc)
        /\ LET v == AsInt(acc = E.b)  w == AsInt(acc = s) IN E.eqs = << v, w, w, v, w, w >>
        /\ E.equal = [i \in 1..N |-> Mask(acc[i] = E.b[i])] /\ E.nequal = [i \in 1..N |-> Mask(acc[i] # E.b[i])]
VSel ==
  /\ Is("vsel") /\ Same
  /\ LET mn(x, y) == Least(sg, x, y)  mx(x, y) == Most(sg, x, y)
         lo == Map2(mn, E.b, E.c)  hi == Map2(mx, E.b, E.c) IN
     /\ E.min = Map2(mn, acc, E.b) /\ E.max = Map2(mx, acc, E.b)
     /\ E.min3 = Map2(mn, E.min, E.c) /\ E.max3 = Map2(mx, E.max, E.c)
     /\ E.clamp = Map2(mx, Map2(mn, acc, hi), lo)
     /\ E.select = [i \in 1..N |-> IF E.m[i] < 0 THEN acc[i] ELSE E.b[i]]      \* the sign bit of the mask decides
VRed ==
  /\ Is("vred") /\ Same
  /\ LET mn(x, y) == Least(sg, x, y)  mx(x, y) == Most(sg, x, y)  a3 == SubSeq(acc, 1, 3) IN
     E.r = << Fold(mn, acc), Fold(mx, acc), Fold(mn, acc), Fold(mx, acc), Fold(mn, a3), Fold(mx, a3) >>
VMask ==
  /\ Is("vmask") /\ Same
  /\ LET all == \A i \in 1..N : acc[i] = -1   none == \A i \in 1..N : acc[i] = 0
         bit(i) == IF i <= N /\ acc[i] < 0 THEN 2^(i - 1) ELSE 0 IN
     /\ E.trues = bit(1) + bit(2) + bit(3) + bit(4)
     /\ E.r = << AsInt(all), AsInt(none), AsInt(~none), AsInt(~all) >>
VBic == Is("vbic") /\ Same /\ E.r = Bin("bic", sg, acc, E.b)

------------------------------------------------------------------------------
(* V05 *)
Ctor == Is("ctor") /\ Same /\ E.r = Made(E.p, E.n)
Cut == Is("cut") /\ Same /\ E.r = SubSeq(E.a, 1, Len(E.r)) /\ Len(E.r) = (IF SubSeq(E.k, Len(E.k), Len(E.k)) = "1" THEN 1 ELSE Len(E.r))
Swz == Is("swz") /\ Same /\ E.r = [k \in 1..4 |-> E.a[E.i[k] + 1]]
Conv == Is("conv") /\ Same /\ E.r = E.a
ToFloat == Is("tofloat") /\ Same /\ E.r = E.a /\ E.neg = [i \in 1..Len(E.a) |-> AsInt(E.k = "s" /\ E.a[i] < 0)]
TruncStep == Is("trunc") /\ Same /\ E.r = [i \in 1..Len(E.r) |-> Quot4(E.a[i])] /\ Len(E.r) = Len(E.a)
Const ==
  /\ Is("const") /\ Same
  /\ LET u == 4  n == E.n IN
     E.r = CASE E.k = "zero" -> Splat(0, n) [] E.k = "one" -> Splat(u, n) [] E.k = "minusOne" -> Splat(-u, n)
            [] E.k = "left" -> Axis(n, 1, -u) [] E.k = "right" -> Axis(n, 1, u) [] E.k = "bottom" -> Axis(n, 2, -u)
            [] E.k = "top" -> Axis(n, 2, u) [] E.k = "back" -> Axis(n, 3, -u) [] E.k = "front" -> Axis(n, 3, u)
            [] E.k = "inf" -> Splat(2000000002, n) [] E.k = "minusInf" -> Splat(-2000000002, n) [] E.k = "nan" -> Splat(2000000001, n)

Text == Is("text") /\ Same /\ Len(E.a) = E.n /\ E.s = Words(E.ty, E.a)

------------------------------------------------------------------------------
(* V06: the binary order is a strict total order on the representations, so that values can be keys of ordered containers *)
Order ==
  /\ Is("order") /\ Same
  /\ LET K == 1..Len(E.r)  less(i, j) == E.r[i][j] = 1  eq(i, j) == E.e[i][j] = 1 IN
     /\ \A i, j \in K : IF eq(i, j) THEN ~less(i, j) ELSE less(i, j) # less(j, i)
     /\ \A i, j, k \in K : less(i, j) /\ less(j, k) => less(i, k)
     /\ \A i, j, k \in K : eq(i, j) => (less(i, k) <=> less(j, k)) /\ (less(k, i) <=> less(k, j))
\* a std::map with this order, over a whole history
KStep ==
  /\ Is("key") /\ Same
  /\ CASE E.f = "new" -> KNew
       [] E.f = "put" -> Put(E.k, E.v) /\ E.c = AsInt(E.k \notin Held)
       [] E.f = "get" -> UNCHANGED kvars /\ E.c = AsInt(E.k \in Held) /\ IF E.k \in Held THEN E.v = map[E.k] ELSE TRUE
       [] E.f = "drop" -> Drop(E.k) /\ E.c = AsInt(E.k \in Held)
       [] E.f = "list" -> Listing(E.ks) /\ E.vs = [i \in 1..Len(E.ks) |-> map[E.ks[i]]]
  /\ E.size = Cardinality(DOMAIN map')

TNext == KStep \/ (UNCHANGED kvars /\ (VLoad \/ VFill \/ VSet \/ VOp \/ VRsh \/ VUn \/ VCmp \/ VSel \/ VRed \/ VMask \/ VBic
         \/ Ctor \/ Cut \/ Swz \/ Conv \/ ToFloat \/ TruncStep \/ Const \/ Text \/ Order))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
