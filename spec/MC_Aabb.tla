------------------------------- MODULE MC_Aabb -------------------------------
EXTENDS Aabb, TLC
CONSTANTS G, K, Rand     \* grid 0..G, walk length K; Rand: sample one argument per operation
Pick(S) == IF Rand THEN { RandomElement(S) } ELSE S
VARIABLES h, n
Pts == (0..G) \X (0..G) \X (0..1)
Bs == { b \in Pts \X Pts : IsBox(b) }
ASSUME Rand \/ (UnionLaw(Bs) /\ MeetLaw(Bs, Pts) /\ SectLaw(Bs, Pts) /\ InLaw(Bs, Pts) /\ ClosestLaw(Bs, Pts))
MCInit == Init /\ h = << >> /\ n = 0
\* the op codes are those of harness/geom.cpp; every step appends its code and arguments to h
Do(code, args, A) == A /\ h' = h \o <<code>> \o args /\ n' = n + 1
F(b) == b[1] \o b[2]
Sizes == { VScale(p, 2) : p \in Pts }
Near == Size[1] <= 2*G /\ Lo[1] >= -G /\ Hi[1] <= 2*G /\ Size[2] <= 2*G /\ Lo[2] >= -G /\ Hi[2] <= 2*G
MCNext == /\ n < K
  /\ \/ \E b \in Pick(Bs) : Do(1, F(b), Set(b))
     \/ \E b \in Pick(Pts \X Pts) : Do(2, F(b), \E r \in BOOLEAN : TrySet(b, r))
     \/ \E p \in Pick(Pts) : Do(3, p, SetLo(p)) \/ Do(4, p, SetHi(p))
     \/ \E s \in Pick(Sizes), p \in Pick(Pts) : Do(5, s \o p, SetSize(s, p)) \/ Do(6, s \o p, SetExtent(Half(s), p))
     \/ \E p \in Pick(Pts) : Do(7, p, ExtendPoint(p))
     \/ \E b \in Pick(Bs) : Do(8, F(b), ExtendBox(b))
     \/ \E p \in Pick({ x \in Pts : InBox(box, x) } \cup {Lo}) : Do(9, p, ShrinkPoint(p))
     \/ \E b \in Pick({ x \in Bs : BoxMeet(box, x) } \cup {box}) : Do(10, F(b), ShrinkBox(b))
     \/ Near /\ \E p \in Pick(Pts) : Do(11, VSub(p, <<1, 1, 0>>), Translate(VSub(p, <<1, 1, 0>>)))
     \/ Near /\ \E p \in Pick(Pts) : Do(12, p, Scale(p))
Spec == MCInit /\ [][MCNext]_<<box, h, n>>
View == <<box, n>>
\* invariants of the object: it stays a box; what was just done is reflected
StaysBox == IsBox(box)
Emit == n = K => PrintT("SCRIPT " \o ToString(h))
=============================================================================
