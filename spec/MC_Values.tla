----------------------------- MODULE MC_Values -----------------------------
(* Laws of the value types: every 16-bit number / pair of small versions / pair of channels. *)
EXTENDS Values, TLC
CONSTANT Vs                         \* parts of versions
VARIABLES x, y
vars == << x, y >>
Init == x \in 0..255 /\ y = 0
Next == y < 255 /\ y' = y + 1 /\ x' = x
Spec == Init /\ [][Next]_vars
b2 == << x, y >>
HexLaws == /\ UnHex(Hex(b2, 4), 2) = b2 /\ UnHex(Hex(b2, 7), 4) = << x, y, 0, 0 >> /\ Hex(b2, 2) = Hex(<< x >>, 2)
           /\ Hex(<< 0, x >>, 4) = Hex(<< x >>, 2) \o << 48, 48 >>
n16 == x + 256 * y
MipLaws == n16 # 0 =>
  LET m == MipCount(b2) IN
  /\ 2^(m - 1) <= n16 /\ n16 < 2^m                                   \* the chain has floor(log2)+1 levels
  /\ SizeAt(b2, m - 1) = << 1, 0 >> /\ SizeAt(b2, 0) = b2
  /\ \A k \in 0..(m + 1) : LET s == SizeAt(b2, k)  q == n16 \div 2^k IN s[1] + 256 * s[2] = (IF q = 0 THEN 1 ELSE q)
FlagLaws == LET a == << x >>  b == << y >> IN
  /\ FNot(FNot(a)) = a /\ FXor(FXor(a, b), b) = a /\ FOr(FAnd(a, b), FXor(a, b)) = FOr(a, b) /\ FNot(FOr(a, b)) = FAnd(FNot(a), FNot(b))
  /\ FZero(FAnd(a, FNot(b))) <=> FAnd(a, b) = a
ColorLaws == /\ Chan((2 * x * Q + 255) \div 510) = x /\ (x <= y => Chan(16 * x) <= Chan(16 * y))
             /\ \A v \in {x * 16 + (y % 16)} : 2 * (Chan(v) * Q - 255 * v) <= Q /\ 2 * (255 * v - Chan(v) * Q) < Q + 1
Vers == [1..4 -> Vs]
VerLaws == (x = 0 /\ y = 0) => \A u, v \in Vers :
  /\ VLess(u, v) \/ VLess(v, u) \/ u = v
  /\ ~(VLess(u, v) /\ VLess(v, u)) /\ ~VLess(u, u)
  /\ VLess(u, v) <=> u[1]*27 + u[2]*9 + u[3]*3 + u[4] < v[1]*27 + v[2]*9 + v[3]*3 + v[4]
=============================================================================
