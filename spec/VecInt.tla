------------------------------- MODULE VecInt -------------------------------
(* The integer vector register machine: a register of lanes, each a 32-bit word (written as its signed value),
   changed by assignment, lane stores and the compound operators. Pure operators are functions of the register. *)
EXTENDS Word
VARIABLES acc,    \* sequence of words as signed integers
          sg      \* lanes are signed
VInit == acc = << 0, 0 >> /\ sg = TRUE

Splat(k, n) == [i \in 1..n |-> k]
Lane(f, s, x, y) == LET a == W(x)  b == W(y) IN Signed(
  CASE f = "+" -> WAdd(a, b) [] f = "-" -> WSub(a, b) [] f = "*" -> WMul(a, b)
    [] f = "/" -> (IF s THEN SDivMod(a, b) ELSE UDivMod(a, b))[1]
    [] f = "%" -> (IF s THEN SDivMod(a, b) ELSE UDivMod(a, b))[2]
    [] f = "&" -> WAnd(a, b) [] f = "|" -> WOr(a, b) [] f = "^" -> WXor(a, b)
    [] f = "<" -> WShl(a, y) [] f = ">" -> IF s THEN WSar(a, y) ELSE WShr(a, y)
    [] f = "bic" -> WAnd(a, WNot(b)))
Bin(f, s, a, b) == [i \in 1..Len(a) |-> Lane(f, s, a[i], b[i])]
Below(s, x, y) == IF s THEN x < y ELSE ULess(W(x), W(y))
Least(s, x, y) == IF Below(s, y, x) THEN y ELSE x
Most(s, x, y) == IF Below(s, x, y) THEN y ELSE x
Map2(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
Mask(c) == IF c THEN -1 ELSE 0
Fold(F(_, _), s) == FoldLeft(F, s[1], s)

Load(a, s) == acc' = a /\ sg' = s
Fill(v) == acc' = Splat(v, Len(acc)) /\ UNCHANGED sg
SetLane(i, v) == acc' = [acc EXCEPT ![i] = v] /\ UNCHANGED sg
Compound(f, b) == acc' = Bin(f, sg, acc, b) /\ UNCHANGED sg
=============================================================================
