------------------------------- MODULE MC_Bvh -------------------------------
(* Exhaustive model of Bvh: every assignment of small boxes, every way to subdivide, every query box.
   A query box Q accepts exactly the nodes whose box meets it. *)
EXTENDS Bvh
CONSTANTS MaxN, MaxX, UseSah, Rebuilds
VARIABLES q, builds
mcvars == << vars, q, builds >>

Spans == { <<a, b>> \in (0..MaxX) \X (0..MaxX) : a <= b }
Boxes == { << <<x[1], y[1], 0>>, <<x[2], y[2], 1>> >> : x \in Spans, y \in {<<0, 1>>, <<1, 2>>} }
MCInit == Init /\ q = << >> /\ builds = 0
MCBegin == /\ builds < Rebuilds /\ builds' = builds + 1 /\ q' = << >>
           /\ \E n \in 1..MaxN : \E P \in [0..(n-1) -> Boxes] :
                /\ \A i \in 0..(n-2) : P[i][1][1] <= P[i+1][1][1]        \* up to renaming of primitives
                /\ Begin(P, [i \in 0..(n-1) |-> VAdd(P[i][1], P[i][2])], UnionOf(P, DOMAIN P))
MCSplit == /\ UNCHANGED << q, builds >>
           /\ \E id \in Leaves : \E L \in SUBSET N(id).set :
                LET R == N(id).set \ L IN
                /\ L # {} /\ R # {}
                /\ UseSah => SahSplit(id, L)
                /\ Split(id, L, N(id).first, N(id).first + Cardinality(L), UnionOf(prims, L), UnionOf(prims, R))
\* any order that lists each leaf's primitives inside its range; one representative is enough here
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN << >> ELSE LET m == SetMin(S) IN <<m>> \o SetSeq(S \ {m})
LeafAt(k) == CHOOSE id \in Leaves : k \in RangeOf(id)
MCEnd == /\ phase = "building"
         /\ UseSah => \A id \in Leaves : SahLeaf(id)
         /\ EndBuild([k \in 1..Cardinality(Prims) |->
              LET id == LeafAt(k - 1) IN SetSeq(N(id).set)[k - N(id).first]])
         /\ UNCHANGED << q, builds >>
MCWalk == WalkBegin /\ UNCHANGED builds /\ q = << >>
          /\ \E x \in Spans : q' = << <<x[1], 0, 0>>, <<x[2], 0, 0>> >>
MCTest == /\ UNCHANGED << q, builds >> /\ \E id \in front : Test(id, BoxMeet(N(id).box, q))
MCReport == UNCHANGED << q, builds >> /\ \E id \in due : Report(id)
MCWalkEnd == UNCHANGED << q, builds >> /\ WalkEnd
MCNext == MCBegin \/ MCSplit \/ MCEnd \/ MCWalk \/ MCTest \/ MCReport \/ MCWalkEnd
MCSafe == MCInit /\ [][MCNext]_mcvars
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCSplit \/ MCEnd) /\ WF_mcvars(MCTest \/ MCReport \/ MCWalkEnd)

\* B04: a finished query has reported every primitive that meets the query box
Complete == (phase = "built" /\ q # << >>) =>
  \A p \in Prims : BoxMeet(prims[p], q) => \E id \in out : p \in N(id).set
Exact == (phase = "built" /\ q # << >>) => \A id \in out : BoxMeet(N(id).box, q)
\* B03 (design level): a build that started ends, a query that started ends
BuildEnds == (phase = "building") ~> (phase = "built")
WalkEnds == (phase = "walking") ~> (phase = "built")
=============================================================================
