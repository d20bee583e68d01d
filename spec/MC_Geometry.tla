----------------------------- MODULE MC_Geometry -----------------------------
(* The decision procedures of Geometry mean what they say, exhaustively on small grids; one state per case. *)
EXTENDS Geometry, TLC
CONSTANTS G, What
VARIABLES case
Pts == (0..G) \X (0..G) \X (0..G)
Bx == << <<1, 1, 1>>, <<1, 2, 2>> >>
Unit == << <<0, 0, 0>>, <<1, 1, 1>> >>
Dirs == ({-2, -1, 0, 1, 2} \X {-1, 0, 1, 2} \X {-1, 0, 1}) \ {Zero3}
Boxes == { <<p, q>> \in ((0..1) \X (0..1) \X (0..1)) \X Pts : IsBox(<<p, q>>) }
Init ==
  \/ What = "tri" /\ \E t \in Pts \X Pts \X Pts : case = [k |-> "tri", t |-> t]
  \/ What = "ray" /\ \E o \in (-2..3) \X (-1..3) \X (-1..2), d \in Dirs : case = [k |-> "ray", o |-> o, d |-> d]
  \/ What = "in" /\ \E t \in Pts \X Pts \X Pts, i \in -1..3, j \in -1..3 : t[1] = Zero3 /\ case = [k |-> "in", t |-> t, i |-> i, j |-> j]
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
\* a hit is a common point: some candidate parameter t >= 0 gives a point of the box
Cands(b, o, d) == { <<0, 1>> } \cup { Enter(b, o, d, i) : i \in Slant(d) } \cup { Leave(b, o, d, i) : i \in Slant(d) }
At(o, d, t) == VAdd(VScale(o, t[2]), VScale(d, t[1]))   \* scaled by t[2]
Scaled(b, n) == << VScale(b[1], n), VScale(b[2], n) >>
RayMeaning == case.k = "ray" =>
  \A b \in {Bx, Unit} : RayHits(b, case.o, case.d)
    <=> \E t \in Cands(b, case.o, case.d) : t[1] >= 0 /\ InBox(Scaled(b, t[2]), At(case.o, case.d, t))
SatMeaning == case.k = "tri" =>
  \A b \in {Bx, << <<0, 1, 1>>, <<1, 1, 2>> >>} : TriMeetsBox(b, case.t) <=> TriMeetsBoxByContact(b, case.t)
\* p = p0 + (i (p1-p0) + j (p2-p0)) / 2, everything doubled
InMeaning == case.k = "in" =>
  LET t == case.t  t2 == << VScale(t[1], 2), VScale(t[2], 2), VScale(t[3], 2) >>
      p == VAdd(t2[1], VAdd(VScale(VSub(t[2], t[1]), case.i), VScale(VSub(t[3], t[1]), case.j)))
  IN TriNormal(t) # Zero3 => (InTri(t2, p) <=> case.i >= 0 /\ case.j >= 0 /\ case.i + case.j <= 2)
=============================================================================
