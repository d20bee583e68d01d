-------------------------------- MODULE Word --------------------------------
(* Two's complement machine words of 4*LB bits as four little endian limbs, so that 32-bit wrap around
   arithmetic stays inside TLC's integers. The definitions are checked against plain integer arithmetic
   for small LB (MC_Word) and used with LB = 8 on the traces. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
CONSTANT LB
D == 2^LB
NBits == 4 * LB
Word == [1..4 -> 0..(D - 1)]

W(x) == << x % D, (x \div D) % D, (x \div (D*D)) % D, (x \div (D*D*D)) % D >>    \* of any integer
Signed(w) == w[1] + D*w[2] + D*D*w[3] + D*D*D * (IF w[4] >= D \div 2 THEN w[4] - D ELSE w[4])
WZero == << 0, 0, 0, 0 >>
WNot(a) == [k \in 1..4 |-> D - 1 - a[k]]
WOnes == WNot(WZero)
WAdd(a, b) == LET s1 == a[1] + b[1]  s2 == a[2] + b[2] + (s1 \div D)  s3 == a[3] + b[3] + (s2 \div D)
                  s4 == a[4] + b[4] + (s3 \div D) IN << s1 % D, s2 % D, s3 % D, s4 % D >>
WNeg(a) == WAdd(WNot(a), << 1, 0, 0, 0 >>)
WSub(a, b) == WAdd(a, WNeg(b))
WMul(a, b) ==
  LET p1 == a[1]*b[1]
      p2 == a[1]*b[2] + a[2]*b[1] + (p1 \div D)
      p3 == a[1]*b[3] + a[2]*b[2] + a[3]*b[1] + (p2 \div D)
      p4 == a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1] + (p3 \div D)
  IN << p1 % D, p2 % D, p3 % D, p4 % D >>
ULess(a, b) == \E k \in 1..4 : a[k] < b[k] /\ \A j \in (k + 1)..4 : a[j] = b[j]
Negative(a) == a[4] >= D \div 2
Bit(a, k) == (a[(k \div LB) + 1] \div 2^(k % LB)) % 2
WShl(a, n) == WMul(a, [k \in 1..4 |-> IF n \div LB = k - 1 THEN 2^(n % LB) ELSE 0])
Limb(a, k, fill) == IF k > 4 THEN fill ELSE a[k]
ShiftR(a, n, fill) == LET s == n \div LB  m == n % LB IN
  [k \in 1..4 |-> (Limb(a, k + s, fill) \div 2^m) + ((Limb(a, k + s + 1, fill) * 2^(LB - m)) % D)]
WShr(a, n) == ShiftR(a, n, 0)
WSar(a, n) == ShiftR(a, n, IF Negative(a) THEN D - 1 ELSE 0)
WAnd(a, b) == [k \in 1..4 |-> a[k] & b[k]]
WOr(a, b) == [k \in 1..4 |-> a[k] | b[k]]
WXor(a, b) == [k \in 1..4 |-> a[k] ^^ b[k]]

\* restoring division; the remainder stays below b, so that one more bit never leaves the word when b does not
BitOrder == [k \in 1..NBits |-> NBits - k]
LongDiv(a, b) ==
  FoldLeft(LAMBDA qr, k :
      LET over == Bit(qr[2], NBits - 1) = 1          \* doubling carries out of the word
          r == WAdd(WAdd(qr[2], qr[2]), << Bit(a, k), 0, 0, 0 >>)
          take == over \/ ~ULess(r, b)
          q2 == WAdd(qr[1], qr[1])
      IN << IF take THEN WAdd(q2, << 1, 0, 0, 0 >>) ELSE q2, IF take THEN WSub(r, b) ELSE r >>,
    << WZero, WZero >>, BitOrder)
\* quotient and remainder of unsigned words through TLC's own integers: halve a large dividend, then one more
\* restoring step; a large divisor fits at most once. MC_Word shows that this is LongDiv.
UDivMod(a, b) ==
  IF Negative(b) THEN IF ULess(a, b) THEN << WZero, a >> ELSE << << 1, 0, 0, 0 >>, WSub(a, b) >>
  ELSE IF ~Negative(a) THEN << W(Signed(a) \div Signed(b)), W(Signed(a) % Signed(b)) >>
  ELSE LET h == Signed(WShr(a, 1))  d == Signed(b)
           r == WAdd(WAdd(W(h % d), W(h % d)), << a[1] % 2, 0, 0, 0 >>)
       IN IF ULess(r, b) THEN << WAdd(W(h \div d), W(h \div d)), r >>
          ELSE << WAdd(WAdd(W(h \div d), W(h \div d)), << 1, 0, 0, 0 >>), WSub(r, b) >>
Magnitude(a) == IF Negative(a) THEN WNeg(a) ELSE a
\* signed division truncates towards zero, the remainder has the sign of the dividend
SDivMod(a, b) == LET u == UDivMod(Magnitude(a), Magnitude(b)) IN
  << IF Negative(a) # Negative(b) THEN WNeg(u[1]) ELSE u[1], IF Negative(a) THEN WNeg(u[2]) ELSE u[2] >>
=============================================================================
