------------------------------ MODULE TraceBvh ------------------------------
(* Every recorded build / query of the real hierarchy is a behaviour of Bvh. *)
EXTENDS Bvh, TraceBase
VARIABLES l, memo, sah
tvars == << vars, l, memo, sah >>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1

ToFun(s) == [k \in 0..(Len(s) - 1) |-> s[k + 1]]
ToSet(s) == { s[k] : k \in 1..Len(s) }
TInit == Init /\ l = 1 /\ memo = << >> /\ sah = FALSE

TBegin == /\ Is("begin") /\ UNCHANGED memo /\ sah' = E.sah
          /\ LET P == [k \in 0..(E.n - 1) |-> Box6(E.p[k + 1])] IN
             Begin(P, IF E.sah THEN ToFun(E.c) ELSE << >>, Box6(E.root))
TSplit == /\ Is("split") /\ UNCHANGED << memo, sah >>
          /\ E.left = Len(nodes)
          /\ LET L == ToSet(E.s1)  R == ToSet(E.s2) IN
             /\ Cardinality(L) = E.c1 /\ Cardinality(R) = E.c2
             /\ Split(E.node, L, E.f1, E.f2, Box6(E.b1), Box6(E.b2))
             /\ R = N(E.node).set \ L
             /\ Judge = "B02" => TightBoxes(E.node, L, Box6(E.b1), Box6(E.b2))
             /\ (Judge = "B05" /\ sah /\ ExactBins(N(E.node).set)) => SahSplit(E.node, L)
\* stack is the length of the traversal stack after the call
TBuilt == /\ Is("built") /\ UNCHANGED sah
          /\ E.nodes = Len(nodes) /\ E.stack = 0
          /\ Box6(E.root) = nodes[1].box
          /\ EndBuild(E.perm)
          /\ (Judge = "B05" /\ sah) => \A id \in Leaves : (Count(id) > 2 /\ ExactBins(N(id).set)) => SahLeaf(id)
          /\ IF E.key = "" \/ Judge # "B06" THEN memo' = memo
             ELSE LET v == << E.tree, E.perm >> IN
                  IF E.key \in DOMAIN memo THEN memo[E.key] = v /\ memo' = memo
                  ELSE memo' = memo @@ (E.key :> v)
\* a new container; what earlier containers produced for the same input is remembered
TFresh == Is("fresh") /\ phase' = "idle" /\ prims' = << >> /\ cents' = << >> /\ nodes' = << >> /\ perm' = << >>
          /\ front' = {} /\ due' = {} /\ out' = {} /\ UNCHANGED sah
          /\ memo' = IF E.forget THEN << >> ELSE memo
TWalk == Is("walk") /\ WalkBegin /\ UNCHANGED << memo, sah >>
TTest == Is("test") /\ Test(E.node, E.yes) /\ UNCHANGED << memo, sah >>
TLeaf == Is("leaf") /\ UNCHANGED << memo, sah >>
         /\ \E id \in due : N(id).first = E.first /\ Count(id) = E.count /\ Report(id)
TWalkEnd == Is("walkend") /\ E.stack = 0 /\ WalkEnd /\ UNCHANGED << memo, sah >>

\* frustum query: planes are <<nx, ny, nz, d>>; a box is refused when all its corners are behind one plane
PlaneDist(pl, p) == pl[1]*p[1] + pl[2]*p[2] + pl[3]*p[3] + pl[4]
BehindAny(planes, b) == \E k \in 1..Len(planes) : \A c \in Corners(b) : PlaneDist(planes[k], c) < 0
RECURSIVE Surv(_, _)
Surv(id, planes) == IF BehindAny(planes, N(id).box) THEN {}
                    ELSE IF IsLeaf(id) THEN {id} ELSE UNION { Surv(k, planes) : k \in Kids(id) }
TFrustum == /\ Is("frustum") /\ phase \in {"built", "walking"} /\ UNCHANGED << vars, memo, sah >>
            /\ LET hit == Surv(0, E.planes)  got == E.out IN
               /\ E.ret = Len(got) /\ E.stack = 0
               /\ ToSet(got) = UNION { N(id).set : id \in hit }
               /\ Len(got) = Cardinality(ToSet(got))
               \* conservative: nothing that is in front of every plane is lost
               /\ \A p \in Prims : (BoxIn(nodes[1].box, prims[p]) /\ ~BehindAny(E.planes, prims[p])) => p \in ToSet(got)
\* queries on an empty container
TEmpty == Is("emptyquery") /\ E.tests = 0 /\ E.leaves = 0 /\ E.ret = 0 /\ E.stack = 0 /\ UNCHANGED << vars, memo, sah >>

------------------------------------------------------------------------------
(* Crowds: cluster c stands for w[c] coincident primitives, which no plane can separate, so a build of tens of
   thousands of primitives is a build over the clusters in which a cluster takes w[c] places of the ranges. *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
CKids(e, id) == IF e.kid[id + 1] = 0 THEN {} ELSE { e.kid[id + 1], e.kid[id + 1] + 1 }
RECURSIVE CSet(_, _)
CSet(e, id) == IF CKids(e, id) = {} THEN { c \in DOMAIN e.w : e.per[id + 1][c] > 0 } ELSE UNION { CSet(e, k) : k \in CKids(e, id) }
RECURSIVE CFirst(_, _)
CFirst(e, id) == IF CKids(e, id) = {} THEN e.first[id + 1] ELSE SetMin({ CFirst(e, k) : k \in CKids(e, id) })
CTotal(e, id) == SumOver(e.w, CSet(e, id))
\* costs with the clusters' weights; single precision may not tell costs apart that differ by less than one in 2^19
CCost(e, P, S, L) == HalfArea(UnionOf(P, L)) * SumOver(e.w, L) + HalfArea(UnionOf(P, S \ L)) * SumOver(e.w, S \ L)
Slack(x) == 1 + x \div 524288
CSah(e, P, id) ==
  LET S == CSet(e, id)  C == e.c  pl == PlanesOf(C, S)  own == HalfArea(Box6(e.box[id + 1])) * SumOver(e.w, S) IN
  ExactBinsOf(C, S) =>
    IF CKids(e, id) = {} THEN SumOver(e.w, S) > 2 => \A M \in pl : CCost(e, P, S, M) + Slack(own) >= own
    ELSE LET L == CSet(e, e.kid[id + 1])  x == CCost(e, P, S, L) IN
         /\ x < own + Slack(own) /\ (L \in pl \/ (S \ L) \in pl)
         /\ \A M \in pl : x <= CCost(e, P, S, M) + Slack(x)
TCrowd ==
  /\ Is("crowd") /\ UNCHANGED << vars, memo, sah >>
  /\ LET n == Len(E.kid)  I == 0..(n - 1)  CL == { id \in I : E.kid[id + 1] = 0 }  P == [c \in DOMAIN E.w |-> Box6(E.p[c])] IN
       /\ n % 2 = 1 /\ n <= 2 * Len(E.w) - 1 /\ E.perm
       \* children follow their parent, every node but the root has one parent
       /\ \A id \in I : \A k \in CKids(E, id) : k > id /\ k < n
       /\ \A id \in I \ {0} : Cardinality({ p \in I : id \in CKids(E, p) }) = 1
       \* a leaf holds whole clusters, an inner node nothing itself
       /\ \A id \in CL : /\ Len(E.per[id + 1]) = Len(E.w) /\ \A c \in DOMAIN E.w : E.per[id + 1][c] \in {0, E.w[c]}
                         /\ E.count[id + 1] = CTotal(E, id) /\ E.count[id + 1] > 0
       /\ \A x, y \in CL : x # y => CSet(E, x) \cap CSet(E, y) = {}
       /\ CSet(E, 0) = DOMAIN E.w /\ CFirst(E, 0) = 0
       \* the children share the range of the parent
       /\ \A id \in I \ CL : LET a == E.kid[id + 1]  b == a + 1 IN
            \/ CFirst(E, b) = CFirst(E, a) + CTotal(E, a)
            \/ CFirst(E, a) = CFirst(E, b) + CTotal(E, b)
       /\ Box6(E.box[1]) = Box6(E.root)
       /\ Judge = "B05" => \A id \in I : CSah(E, P, id)
       /\ Judge = "B02" => \A id \in I \ {0} : Box6(E.box[id + 1]) = UnionOf(P, CSet(E, id))
RECURSIVE CSurv(_, _, _)
CSurv(e, id, planes) == IF BehindAny(planes, Box6(e.box[id + 1])) THEN {}
                        ELSE IF CKids(e, id) = {} THEN CSet(e, id) ELSE UNION { CSurv(e, k, planes) : k \in CKids(e, id) }
\* queries of the last crowd
TCrowdQ ==
  /\ Is("crowdq") /\ UNCHANGED << vars, memo, sah >>
  /\ LET k == CHOOSE j \in 1..(l - 1) : Trace[j].op = "crowd" /\ \A i \in (j + 1)..(l - 1) : Trace[i].op = "crowdq"
         C == Trace[k]  hit == CSurv(C, 0, E.planes) IN
       /\ \A c \in DOMAIN C.w : E.got[c] = IF c \in hit THEN C.w[c] ELSE 0
       /\ E.ret = SumOver(C.w, hit) /\ E.once
       /\ Len(E.leaves) = Cardinality({ id \in DOMAIN C.kid : C.kid[id] = 0 })
       /\ { E.leaves[i] : i \in DOMAIN E.leaves } = { << C.first[id], C.count[id] >> : id \in { j \in DOMAIN C.kid : C.kid[j] = 0 } }
------------------------------------------------------------------------------
(* A tree of more nodes than sixteen bits can count, node by node: no recursion, so that TLC walks it in seconds. *)
Slots(a, n) == a..(a + n - 1)
TGiant ==
  /\ Is("giant") /\ UNCHANGED << vars, memo, sah >>
  /\ LET n == Len(E.kid)  m == Len(E.p)  In == { i \in 1..n : E.kid[i] # 0 }  K == { E.kid[i] : i \in In } IN
       /\ E.sound /\ n = 1 + 2 * Cardinality(In) /\ n <= 2 * m - 1
       \* every node but the root is the child of one node, which precedes it
       /\ Cardinality(K) = Cardinality(In) /\ \A k \in K : (k + 1) \notin K /\ k + 1 < n
       /\ \A i \in In : E.kid[i] >= i
       \* the primitives are permuted, and the children share the range of the parent
       /\ Len(E.perm) = m /\ { E.perm[i] : i \in 1..m } = 0..(m - 1)
       /\ E.first[1] = 0 /\ E.count[1] = m /\ \A i \in 1..n : E.count[i] > 0
       /\ \A i \in In : LET a == E.kid[i] + 1  b == a + 1 IN
            /\ E.count[i] = E.count[a] + E.count[b]
            /\ \/ E.first[a] = E.first[i] /\ E.first[b] = E.first[a] + E.count[a]
               \/ E.first[b] = E.first[i] /\ E.first[a] = E.first[b] + E.count[b]
       /\ Box6(E.box[1]) = Box6(E.root)
       /\ \A i \in In : LET a == E.kid[i] + 1  b == a + 1  x == Box6(E.box[i])  y == UnionOf(<< Box6(E.box[a]), Box6(E.box[b]) >>, {1, 2}) IN
            IF Judge = "B02" /\ i > 1 THEN x = y ELSE BoxIn(x, y)
       /\ \A i \in (1..n) \ In : LET S == { E.perm[j + 1] + 1 : j \in Slots(E.first[i], E.count[i]) }  x == Box6(E.box[i]) IN
            IF Judge = "B02" /\ i > 1 THEN x = UnionOf([j \in S |-> Box6(E.p[j])], S) ELSE \A j \in S : BoxIn(x, Box6(E.p[j]))
TGiantQ ==
  /\ Is("giantq") /\ UNCHANGED << vars, memo, sah >>
  /\ LET k == CHOOSE j \in 1..(l - 1) : Trace[j].op = "giant" /\ \A i \in (j + 1)..(l - 1) : Trace[i].op = "giantq"
         C == Trace[k]  lv == { i \in DOMAIN C.kid : C.kid[i] = 0 }
         \* the box of an inner node that is behind a plane leaves no leaf in front of it
         hit == { i \in lv : ~BehindAny(E.planes, Box6(C.box[i])) } IN
       /\ E.ret = Len(E.got) /\ Cardinality(ToSet(E.got)) = Len(E.got)
       /\ ToSet(E.got) = { C.perm[j + 1] : j \in UNION { Slots(C.first[i], C.count[i]) : i \in hit } }
       /\ Len(E.lf) = Cardinality(lv) /\ Len(E.lc) = Len(E.lf)
       /\ { << E.lf[j], E.lc[j] >> : j \in DOMAIN E.lf } = { << C.first[i], C.count[i] >> : i \in lv }
TNext == TGiant \/ TGiantQ \/ TCrowd \/ TCrowdQ \/ TBegin \/ TSplit \/ TBuilt \/ TFresh \/ TWalk \/ TTest \/ TLeaf \/ TWalkEnd \/ TFrustum \/ TEmpty
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
