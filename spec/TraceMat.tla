------------------------------ MODULE TraceMat ------------------------------
(* Recorded calls on the matrix types are steps of the matrix register machine. *)
EXTENDS MatMachine, TraceBase
VARIABLES l
tvars == << m, l >>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == MInit /\ l = 1
Same == UNCHANGED m
Fill(n, cols, rows) == MatOf(cols, rows, LAMBDA c, r : n)
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))

\* a matrix is written by rows and stored by columns
MLoad ==
  /\ Is("mload")
  /\ LET M == MatOf(E.cols, E.rows, LAMBDA c, r : E.p[(r - 1) * E.cols + c]) IN
     Load(M) /\ E.r = M /\ E.c = M /\ E.d = Flat(M)
MCol == Is("mcol") /\ SetCol(E.i, E.v) /\ E.r = m'
AllQ(F(_, _), A, B) == \A c \in 1..Cols(A) : \A r \in 1..Rows(A) : F(A[c][r], B[c][r])
MScal ==
  /\ Is("mscal")
  /\ IF E.f = "/" THEN /\ AllQ(LAMBDA x, r : QuotIs(x, E.k, r, 4096), m, E.ms) /\ E.cs = E.ms
                       /\ (IF E.sm = << >> THEN TRUE ELSE AllQ(LAMBDA x, r : QuotIs(E.k, x, r, 4096), m, E.sm))
     ELSE /\ E.ms = MScalar(E.f, m, E.k) /\ E.cs = E.ms
          /\ (IF E.sm = << >> THEN TRUE ELSE E.sm = ScalarM(E.f, E.k, m))
  /\ E.refs
  /\ IF E.keep = 1 THEN ScalarBy(E.f, E.k) ELSE Same
MMulStep ==
  /\ Is("mmul")
  /\ E.r = Product(m, E.b) /\ E.c = E.r /\ E.refs
  /\ IF E.keep = 1 THEN MulBy(E.b) ELSE Same
MVecStep ==
  /\ Is("mvec") /\ Same
  /\ E.r = Apply(m, E.v) /\ (IF E.vr = << >> THEN TRUE ELSE E.vr = ApplyLeft(E.w, m))
MTr == Is("mtr") /\ Same /\ E.r = Transpose(m)
MEq == Is("meq") /\ Same /\ (E.eq <=> m = E.b) /\ (E.ne <=> m # E.b)
M33 ==
  /\ Is("m33") /\ Same
  /\ LET A == Block(m, 3)  B == Block(E.b, 3) IN
     /\ E.r = Product(A, B) /\ E.rv = Apply(A, E.v) /\ E.t = Transpose(A) /\ E.tw = << 0, 0, 0 >> /\ E.c3 = m[4]

------------------------------------------------------------------------------
(* M02: the inverse is the adjugate over the determinant; entries recorded in 1/4096, matrices of small integers *)
Whole(M) == MapM(LAMBDA x : x \div One, M)
MInv ==
  /\ Is("minv") /\ Same
  /\ LET W == Whole(m)  d == Det(W)  A == Adjugate(W) IN
     /\ d # 0 /\ \A c \in 1..Cols(W) : \A r \in 1..Rows(W) :
          LET x == E.r[c][r] IN Mag(x) < 4000000 /\ Near(x, (A[c][r] * 4096) \div d, 2)

------------------------------------------------------------------------------
(* M03: changing shape keeps the common block; missing parts come from the given column and row, or are zero *)
MShape ==
  /\ Is("mshape") /\ Same
  /\ CASE E.k = "grow43" -> E.r = Grow(E.a, E.r3, E.r3)           \* 4x3 and the last row
       [] E.k = "grow33" -> E.r = Grow(E.a, E.c3, E.r3)           \* 3x3, the last column and the last row
       [] E.k = "cut" -> E.r = Cut(E.a, E.cols, E.rows)
       [] E.k = "same" -> E.r = E.a
       [] E.k = "three" -> E.r = << E.a[1], E.a[2], E.a[3], E.a[3] >>
       [] E.k = "fill" -> E.r = Fill(E.n, E.cols, E.rows)
       [] E.k = "identity" -> E.r = MapM(LAMBDA x : One * x, Identity(E.cols, E.rows))
TNext == MLoad \/ MCol \/ MScal \/ MMulStep \/ MVecStep \/ MTr \/ MEq \/ M33 \/ MInv \/ MShape
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
