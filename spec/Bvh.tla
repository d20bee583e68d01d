-------------------------------- MODULE Bvh --------------------------------
(* The bounding volume hierarchy: builder and queries as one state machine.

   Builder: the root owns every primitive; a node that is still a leaf is subdivided into two adjacent
   fresh nodes, each holding a nonempty part of the parent's primitives in one half of the parent's
   contiguous range, with the exact union of the boxes it holds.  Which leaf is subdivided next and how is
   left open (UseSah = FALSE) or restricted to the cheapest surface-area plane (UseSah = TRUE).
   Queries: a frontier of nodes still to be tested; an accepted inner node puts its two children on the
   frontier, an accepted leaf is reported once, a refused node drops its whole subtree. *)
EXTENDS Geo, TLC

VARIABLES
  phase,    \* "idle", "building", "built", "walking"
  prims,    \* [0..n-1 -> box]
  cents,    \* [0..n-1 -> centroid]
  nodes,    \* sequence of [box, set, first, left]; the id of nodes[k] is k-1; left = 0 for a leaf
  perm,     \* order of the primitives, fixed when the build ends
  front,    \* ids of nodes still to be tested by the running query
  due,      \* ids of accepted leaves not reported yet
  out       \* ids of reported leaves
vars == << phase, prims, cents, nodes, perm, front, due, out >>

Prims == DOMAIN prims
Ids == 0..(Len(nodes) - 1)
N(id) == nodes[id + 1]
IsLeaf(id) == N(id).left = 0
Count(id) == Cardinality(N(id).set)
Leaves == { id \in Ids : IsLeaf(id) }
Kids(id) == IF IsLeaf(id) THEN {} ELSE { N(id).left, N(id).left + 1 }

------------------------------------------------------------------------------
(* surface area heuristic over eight equal bins per axis *)
Bins == 8
AxisRangeOf(C, S, a) == SetMax({ C[p][a] : p \in S }) - SetMin({ C[p][a] : p \in S })
AxisPlanesOf(C, S, a) ==
  LET lo == SetMin({ C[p][a] : p \in S })
      r == AxisRangeOf(C, S, a)
  IN IF r = 0 THEN {}
     ELSE { { p \in S : Min2(Bins - 1, ((C[p][a] - lo) * Bins) \div r) <= i } : i \in 0..(Bins - 2) }
PlanesOf(C, S) == (AxisPlanesOf(C, S, 1) \cup AxisPlanesOf(C, S, 2) \cup AxisPlanesOf(C, S, 3)) \ { {}, S }
Planes(S) == PlanesOf(cents, S)
Cost(S, L) == HalfArea(UnionOf(prims, L)) * Cardinality(L)
              + HalfArea(UnionOf(prims, S \ L)) * Cardinality(S \ L)
NodeCost(id) == HalfArea(N(id).box) * Count(id)
Improving(id) == { L \in Planes(N(id).set) : Cost(N(id).set, L) < NodeCost(id) }
IsPow2(n) == \E k \in 0..20 : n = 2^k
\* single precision evaluates the bins of this set exactly
ExactBinsOf(C, S) == \A a \in Axes :
  LET r == AxisRangeOf(C, S, a)  lo == SetMin({ C[p][a] : p \in S }) IN
    \/ r = 0 \/ IsPow2(r)
    \/ \A p \in S : LET c == C[p][a] - lo IN c = 0 \/ c = r \/ (Bins * c) % r # 0
ExactBins(S) == ExactBinsOf(cents, S)
SahSplit(id, L) == LET S == N(id).set IN
  /\ Cost(S, L) < NodeCost(id)
  /\ LET P == Planes(S) IN
       /\ L \in P \/ (S \ L) \in P
       /\ \A M \in P : Cost(S, L) <= Cost(S, M)
SahLeaf(id) == Count(id) > 2 => Improving(id) = {}

TightBoxes(id, L, box1, box2) == box1 = UnionOf(prims, L) /\ box2 = UnionOf(prims, N(id).set \ L)

------------------------------------------------------------------------------
Init == /\ phase = "idle" /\ prims = << >> /\ cents = << >> /\ nodes = << >> /\ perm = << >>
        /\ front = {} /\ due = {} /\ out = {}

\* P, C : functions on 0..n-1, n >= 1; a build may follow any number of earlier builds and finished queries
Begin(P, C, root) ==
  /\ phase \in {"idle", "built"}
  /\ phase' = "building" /\ prims' = P /\ cents' = C
  /\ nodes' = << [box |-> root, set |-> DOMAIN P, first |-> 0, left |-> 0] >>
  /\ perm' = << >> /\ front' = {} /\ due' = {} /\ out' = {}

\* subdivide leaf id: L goes to the left child (range first1), the rest to the right child
Split(id, L, first1, first2, box1, box2) ==
  /\ phase = "building" /\ id \in Ids /\ IsLeaf(id)
  /\ LET S == N(id).set  R == S \ L  l == Len(nodes) IN
       /\ L # {} /\ L \subseteq S /\ R # {}
       /\ \/ first1 = N(id).first /\ first2 = first1 + Cardinality(L)
          \/ first2 = N(id).first /\ first1 = first2 + Cardinality(R)
       /\ nodes' = [nodes EXCEPT ![id + 1].left = l] \o
            << [box |-> box1, set |-> L, first |-> first1, left |-> 0],
               [box |-> box2, set |-> R, first |-> first2, left |-> 0] >>
  /\ UNCHANGED << phase, prims, cents, perm, front, due, out >>

\* the final order lists the primitives of every leaf inside that leaf's range
EndBuild(order) ==
  /\ phase = "building"
  /\ Len(order) = Cardinality(Prims)
  /\ \A id \in Leaves : { order[k + 1] : k \in N(id).first..(N(id).first + Count(id) - 1) } = N(id).set
  /\ perm' = order /\ phase' = "built"
  /\ UNCHANGED << prims, cents, nodes, front, due, out >>

WalkBegin == /\ phase = "built" /\ phase' = "walking"
             /\ front' = {0} /\ due' = {} /\ out' = {}
             /\ UNCHANGED << prims, cents, nodes, perm >>
Test(id, yes) ==
  /\ phase = "walking" /\ id \in front
  /\ front' = (front \ {id}) \cup (IF yes THEN Kids(id) ELSE {})
  /\ due' = IF yes /\ IsLeaf(id) THEN due \cup {id} ELSE due
  /\ UNCHANGED << phase, prims, cents, nodes, perm, out >>
Report(id) ==
  /\ phase = "walking" /\ id \in due
  /\ due' = due \ {id} /\ out' = out \cup {id}
  /\ UNCHANGED << phase, prims, cents, nodes, perm, front >>
WalkEnd == /\ phase = "walking" /\ front = {} /\ due = {}
           /\ phase' = "built" /\ UNCHANGED << prims, cents, nodes, perm, front, due, out >>

------------------------------------------------------------------------------
(* properties *)
RangeOf(id) == N(id).first..(N(id).first + Count(id) - 1)
TypeOK == /\ phase \in {"idle", "building", "built", "walking"}
          /\ front \subseteq Ids /\ due \subseteq Leaves /\ out \subseteq Leaves
\* B01
WellFormed == nodes # << >> =>
  /\ Len(nodes) <= 2 * Cardinality(Prims) - 1 /\ Len(nodes) % 2 = 1
  /\ \A id \in Ids : Count(id) >= 1 /\ \A k \in Kids(id) : k > id /\ k \in Ids
  /\ \A id \in Ids \ {0} : Cardinality({ p \in Ids : id \in Kids(p) }) = 1
  /\ UNION { N(id).set : id \in Leaves } = Prims
  /\ \A x, y \in Leaves : x # y => N(x).set \cap N(y).set = {} /\ RangeOf(x) \cap RangeOf(y) = {}
  /\ \A id \in Ids : ~IsLeaf(id) => RangeOf(id) = UNION { RangeOf(k) : k \in Kids(id) }
OrderOK == phase \in {"built", "walking"} =>
  { perm[k] : k \in 1..Len(perm) } = Prims /\ Len(perm) = Cardinality(Prims)
\* B02
Enclosing == \A id \in Ids : \A p \in N(id).set : id # 0 => BoxIn(N(id).box, prims[p])
Tight == \A id \in Ids : id # 0 => N(id).box = UnionOf(prims, N(id).set)
Nested == \A id \in Ids : id # 0 => \A k \in Kids(id) : BoxIn(N(id).box, N(k).box)
\* B04: never twice, never an untested leaf
RECURSIVE Below(_)
Below(id) == {id} \cup UNION { Below(k) : k \in Kids(id) }
FrontierOK == /\ \A x, y \in front : x # y => Below(x) \cap Below(y) = {}
              /\ \A x \in front : Below(x) \cap (due \cup out) = {}
              /\ due \cap out = {}
=============================================================================
