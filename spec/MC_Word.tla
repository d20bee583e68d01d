------------------------------ MODULE MC_Word ------------------------------
(* The limb arithmetic is arithmetic modulo 2^NBits: every pair of words of a small width. *)
EXTENDS Word, TLC
VARIABLES a, b
vars == << a, b >>
M == 2^NBits
U(w) == w[1] + D*w[2] + D*D*w[3] + D*D*D*w[4]
OfU(x) == W(x % M)
Half == M \div 2
S(x) == IF x >= Half THEN x - M ELSE x
Mag(x) == IF x < 0 THEN -x ELSE x
TDiv(x, y) == LET q == Mag(x) \div Mag(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
Init == a \in 0..(M - 1) /\ b = 0
Next == b < M - 1 /\ b' = b + 1 /\ a' = a
Spec == Init /\ [][Next]_vars
x == W(a)
y == W(b)
BitLoop(F(_, _), p, q) == LET RECURSIVE G(_) G(k) == IF k = NBits THEN 0
     ELSE 2^k * F((p \div 2^k) % 2, (q \div 2^k) % 2) + G(k + 1) IN G(0)
Arithmetic ==
  /\ U(x) = a /\ Signed(x) = S(a) /\ W(Signed(x)) = x
  /\ U(WAdd(x, y)) = (a + b) % M /\ U(WSub(x, y)) = (a - b) % M /\ U(WMul(x, y)) = (a * b) % M
  /\ U(WNeg(x)) = (-a) % M /\ U(WNot(x)) = M - 1 - a
  /\ ULess(x, y) = (a < b)
Division == b # 0 =>
  /\ LongDiv(x, y) = << W(a \div b), W(a % b) >> /\ UDivMod(x, y) = LongDiv(x, y)
  /\ (S(a) = -Half /\ S(b) = -1) \/ SDivMod(x, y) = << W(TDiv(S(a), S(b))), W(S(a) - S(b) * TDiv(S(a), S(b))) >>
Bits ==
  /\ U(WAnd(x, y)) = BitLoop(LAMBDA p, q : p * q, a, b)
  /\ U(WOr(x, y)) = BitLoop(LAMBDA p, q : IF p + q > 0 THEN 1 ELSE 0, a, b)
  /\ U(WXor(x, y)) = BitLoop(LAMBDA p, q : (p + q) % 2, a, b)
Shifts == b < NBits =>
  /\ U(WShl(x, b)) = (a * 2^b) % M /\ U(WShr(x, b)) = a \div 2^b /\ WSar(x, b) = W(S(a) \div 2^b)
Laws == Arithmetic /\ Division /\ Bits /\ Shifts
=============================================================================
