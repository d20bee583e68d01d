-------------------------------- MODULE Aabb --------------------------------
(* One axis aligned box as an object with mutators, and the set algebra of boxes.
   Coordinates are integers (the implementation works on multiples of 1/2).  *)
EXTENDS Geo
VARIABLES box
Lo == box[1]
Hi == box[2]
Half(v) == [i \in Axes |-> v[i] \div 2]

\* result of a mutator: the new box
MoveBox(b, v) == << VAdd(b[1], v), VAdd(b[2], v) >>
ScaleBox(b, v) == << VMul(b[1], v), VMul(b[2], v) >>
DivBox(b, v) == << [i \in Axes |-> b[1][i] \div v[i]], [i \in Axes |-> b[2][i] \div v[i]] >>
Around(pos, ext) == << VSub(pos, ext), VAdd(pos, ext) >>

Init == box = << Zero3, Zero3 >>
Become(b) == box' = b
Set(b) == IsBox(b) /\ Become(b)
\* returns whether the corners were accepted
TrySet(b, ret) == ret = IsBox(b) /\ box' = IF IsBox(b) THEN b ELSE box
SetLo(v) == Set(<<v, Hi>>)
SetHi(v) == Set(<<Lo, v>>)
SetSize(size, pos) == Become(Around(pos, Half(size)))
SetExtent(ext, pos) == Become(Around(pos, ext))
ExtendPoint(p) == Become(BoxUnion(box, <<p, p>>))
ExtendBox(b) == Become(BoxUnion(box, b))
ShrinkPoint(p) == Become(BoxSect(box, <<p, p>>))
ShrinkBox(b) == Become(BoxSect(box, b))
Translate(v) == Become(MoveBox(box, v))
Scale(v) == Become(ScaleBox(box, v))
Divide(v) == Become(DivBox(box, v))

\* observers
Clamp(b, p) == VMin(VMax(p, b[1]), b[2])
DistSq(a, b) == LET d == VSub(a, b) IN Dot(d, d)
Size == BoxExt(box)
Pos2 == VAdd(Lo, Hi)          \* twice the centre

\* laws of the algebra on a finite set of boxes and points
UnionLaw(B) == \A b, c \in B : /\ BoxIn(BoxUnion(b, c), b) /\ BoxIn(BoxUnion(b, c), c)
                               /\ \A d \in B : BoxIn(d, b) /\ BoxIn(d, c) => BoxIn(d, BoxUnion(b, c))
MeetLaw(B, P) == \A b, c \in B : BoxMeet(b, c) <=> \E p \in P : InBox(b, p) /\ InBox(c, p)
SectLaw(B, P) == \A b, c \in B : \A p \in P : (InBox(b, p) /\ InBox(c, p)) <=> InBox(BoxSect(b, c), p)
InLaw(B, P) == \A b, c \in B : BoxIn(b, c) <=> \A p \in P : InBox(c, p) => InBox(b, p)
ClosestLaw(B, P) == \A b \in B : \A p \in P : /\ InBox(b, Clamp(b, p))
                      /\ \A x \in P : InBox(b, x) => DistSq(p, Clamp(b, p)) <= DistSq(p, x)
=============================================================================
