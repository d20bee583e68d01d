------------------------------- MODULE XReal -------------------------------
(* The extended reals of IEEE-754 arithmetic on a lattice of 1/One: exact values, the two infinities and "not a number".
   The sentinels are the ones of the trace encoding (harness/h.hpp). The sign of zero is not represented. *)
EXTENDS Integers, Sequences
CONSTANT One
XNaN == 2000000001
XInf == 2000000002
IsNaN(x) == x = XNaN
IsInf(x) == x = XInf \/ x = -XInf
Fin(x) == x # XNaN /\ x # XInf /\ x # -XInf
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Mag(x) == IF x < 0 THEN -x ELSE x
XNeg(x) == IF IsNaN(x) THEN x ELSE -x
XAdd(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN XNaN
              ELSE IF IsInf(x) THEN (IF y = -x THEN XNaN ELSE x)
              ELSE IF IsInf(y) THEN y ELSE x + y
XSub(x, y) == XAdd(x, XNeg(y))
XMul(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN XNaN
              ELSE IF IsInf(x) \/ IsInf(y) THEN (IF x = 0 \/ y = 0 THEN XNaN ELSE IF Sgn(x) = Sgn(y) THEN XInf ELSE -XInf)
              ELSE (x * y) \div One
\* order: every comparison with "not a number" is false
XLess(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ x < y
XLeq(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ x <= y
XEq(x, y) == ~IsNaN(x) /\ x = y
XMin(x, y) == IF y < x THEN y ELSE x
XMax(x, y) == IF y > x THEN y ELSE x
\* r, in units 1/Q, is x/y up to the rounding of the record; a zero divisor may be either zero
Near(a, b, tol) == LET d == a - b IN -tol <= d /\ d <= tol
QuotIs(x, y, r, Q) ==
  IF IsNaN(x) \/ IsNaN(y) THEN r = XNaN
  ELSE IF IsInf(x) /\ IsInf(y) THEN r = XNaN
  ELSE IF y = 0 THEN (IF x = 0 THEN r = XNaN ELSE r \in {XInf, -XInf})
  ELSE IF IsInf(x) THEN r = (IF Sgn(x) = Sgn(y) THEN XInf ELSE -XInf)
  ELSE IF IsInf(y) THEN r = 0
  ELSE Fin(r) /\ Near(r, (x * Q) \div y, 2)
\* floor, and the neighbours of x on the integer lattice (in units of 1/One)
XFloor(x) == (x \div One) * One
XCeil(x) == -XFloor(-x)
XTrunc(x) == IF x < 0 THEN XCeil(x) ELSE XFloor(x)
IsRound(x, r) == r % One = 0 /\ 2 * Mag(r - x) <= One
XRoundAway(x) == IF x < 0 THEN -XFloor(One \div 2 - x) ELSE XFloor(x + One \div 2)
------------------------------------------------------------------------------
(* single precision: 24 bits, to the nearest and of two nearest to the even one *)
RECURSIVE Ulp(_)
Ulp(m) == IF m < 16777216 THEN 1 ELSE 2 * Ulp(m \div 2)
IsNearest(x, r) ==
  /\ Fin(r) /\ Mag(r) <= 1073741824 /\ (Sgn(r) = Sgn(x) \/ r = 0)
  /\ LET u == Ulp(Mag(x))  d == Mag(r - x) IN r % u = 0 /\ 2 * d <= u /\ (2 * d = u => (r \div u) % 2 = 0)
\* x / y is m / 2^e, m of 24 bits
IsQuotient(x, y, m, e) ==
  /\ Fin(m) /\ 8388608 <= Mag(m) /\ Mag(m) < 16777216 /\ 0 <= e /\ e <= 30 /\ Mag(x) <= 2^(30 - e)
  /\ Sgn(m) = Sgn(x) * Sgn(y) /\ 2 * Mag(Mag(m) * Mag(y) - Mag(x) * 2^e) <= Mag(y)
\* the sign of a result, 1 for minus and -1 for not a number; x and y with the signs sx and sy
SideOf(f, x, sx, y, sy) ==
  LET v == IF f = "-" THEN -y ELSE y  sv == IF f = "-" THEN 1 - sy ELSE sy IN
  IF f \in {"+", "-"} THEN
    IF IsInf(x) /\ v = -x THEN -1
    ELSE IF IsInf(x) THEN sx ELSE IF IsInf(v) THEN sv
    ELSE IF x = 0 /\ v = 0 THEN sx * sv
    ELSE IF x + v < 0 THEN 1 ELSE 0
  ELSE IF f = "*" /\ ((x = 0 /\ IsInf(y)) \/ (IsInf(x) /\ y = 0)) THEN -1
  ELSE IF f = "/" /\ ((x = 0 /\ y = 0) \/ (IsInf(x) /\ IsInf(y))) THEN -1
  ELSE IF sx = sy THEN 0 ELSE 1
=============================================================================
