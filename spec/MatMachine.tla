----------------------------- MODULE MatMachine -----------------------------
(* The matrix register machine. The register is a matrix in units of 1/16 whose operands are multiples of 1/4, changed by
   assignment, column stores and compound operators. *)
EXTENDS Mat, XReal
VARIABLES m
MInit == m = Identity(2, 2)
Scaled(M) == MapM(LAMBDA x : x \div One, M)
ScaledV(v) == [i \in 1..Len(v) |-> v[i] \div One]
Product(A, B) == Scaled(MMul(A, B))
Apply(A, v) == ScaledV(MVec(A, v))
ApplyLeft(v, A) == ScaledV(VMat(v, A))
MScalar(f, M, k) == MapM(LAMBDA x : CASE f = "+" -> XAdd(x, k) [] f = "-" -> XSub(x, k) [] f = "*" -> XMul(x, k), M)
ScalarM(f, k, M) == MapM(LAMBDA x : CASE f = "+" -> XAdd(k, x) [] f = "-" -> XSub(k, x) [] f = "*" -> XMul(k, x), M)
Load(M) == m' = M
SetCol(i, v) == m' = [m EXCEPT ![i] = v]
MulBy(B) == m' = Product(m, B)
ScalarBy(f, k) == m' = MScalar(f, m, k)
=============================================================================
