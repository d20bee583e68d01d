------------------------------ MODULE MC_XReal ------------------------------
(* Laws of the extended reals: exhaustive over a small lattice with the infinities and "not a number". *)
EXTENDS XReal, TLC
CONSTANT R
VARIABLES x, y
vars == << x, y >>
Vals == {n * One : n \in -R..R} \cup {XNaN, XInf, -XInf}
Quarter == {n : n \in (-R * One)..(R * One)}
Init == x \in Vals \cup Quarter /\ y \in Vals
Spec == Init /\ [][FALSE]_vars
Laws ==
  /\ XAdd(x, y) = XAdd(y, x) /\ XMul(x, y) = XMul(y, x)
  /\ XSub(x, y) = XNeg(XSub(y, x)) \/ IsNaN(XSub(x, y))
  /\ (Fin(x) /\ Fin(y)) => Fin(XAdd(x, y)) /\ Fin(XMul(x, y)) /\ XMul(x, One) = x /\ XAdd(x, 0) = x
  /\ XMul(x, y) = XNeg(XMul(XNeg(x), y))
  /\ ~(XLess(x, y) /\ XLeq(y, x)) /\ (XLeq(x, y) <=> XLess(x, y) \/ XEq(x, y))
  /\ (IsNaN(x) \/ IsNaN(y)) => ~XLess(x, y) /\ ~XLeq(x, y) /\ ~XEq(x, y)
  /\ (~IsNaN(x) /\ ~IsNaN(y)) => (XLess(x, y) \/ XLess(y, x) \/ XEq(x, y))
  /\ (Fin(x) /\ Fin(y) /\ y # 0) => QuotIs(XMul(x, y), y, x, One)
Rounding == Fin(x) =>
  /\ XFloor(x) <= x /\ x < XFloor(x) + One /\ XFloor(x) % One = 0
  /\ XCeil(x) >= x /\ x > XCeil(x) - One /\ XCeil(x) % One = 0
  /\ Mag(XTrunc(x)) <= Mag(x) /\ XTrunc(x) \in {XFloor(x), XCeil(x)}
  /\ IsRound(x, XFloor(x)) \/ IsRound(x, XCeil(x))
  /\ IsRound(x, XRoundAway(x)) /\ XRoundAway(-x) = -XRoundAway(x)
  /\ IsNearest(x, x) /\ \A k \in {1, 2, 8} : IsNearest(16777216 * k + x, 16777216 * k + x) <=> x % (IF x < 0 THEN k ELSE 2 * k) = 0
\* the sign of a result is the sign of its value where it has one
SidesOf(v) == IF v < 0 THEN {1} ELSE IF v = 0 THEN {0, 1} ELSE {0}
Sides == (~IsNaN(x) /\ ~IsNaN(y)) => \A sx \in SidesOf(x), sy \in SidesOf(y) :
  /\ LET v == XAdd(x, y)  w == XSub(x, y)  m == XMul(x, y) IN
     /\ IF IsNaN(v) THEN SideOf("+", x, sx, y, sy) = -1 ELSE SideOf("+", x, sx, y, sy) \in SidesOf(v)
     /\ IF IsNaN(w) THEN SideOf("-", x, sx, y, sy) = -1 ELSE SideOf("-", x, sx, y, sy) \in SidesOf(w)
     /\ IF IsNaN(m) THEN SideOf("*", x, sx, y, sy) = -1 ELSE m # 0 => SideOf("*", x, sx, y, sy) \in SidesOf(m)
  /\ SideOf("+", x, sx, y, sy) = SideOf("+", y, sy, x, sx) /\ SideOf("*", x, sx, y, sy) = SideOf("*", y, sy, x, sx)
  /\ (SideOf("*", x, sx, y, sy) # -1 /\ SideOf("/", x, sx, y, sy) # -1) => SideOf("*", x, sx, y, sy) = SideOf("/", x, sx, y, sy)
=============================================================================
