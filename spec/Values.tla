------------------------------- MODULE Values -------------------------------
(* Small value types: hexadecimal text, decimal text, packed colours, versions, bit flags and mip chains.
   Machine integers are byte sequences, least significant byte first; text is a sequence of character codes. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
RECURSIVE Pow2(_)
AsInt(c) == IF c THEN 1 ELSE 0
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
ByteAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
\* ---- text
Dig(d) == IF d < 10 THEN 48 + d ELSE 55 + d                       \* 0..9, A..F
Nib(b, j) == (ByteAt(b, (j \div 2) + 1) \div (IF j % 2 = 0 THEN 1 ELSE 16)) % 16
Hex(b, n) == [i \in 1..n |-> Dig(Nib(b, n - i))]                  \* zero padded or cut to the low n digits
UnDig(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
\* the n low bytes of the number a digit string of either case denotes
UnHex(s, n) == LET d(j) == IF j < Len(s) THEN UnDig(s[Len(s) - j]) ELSE 0 IN [i \in 1..n |-> d(2*i - 2) + 16 * d(2*i - 1)]
Dec(x) == IF x < 10 THEN << 48 + x >> ELSE IF x < 100 THEN << 48 + (x \div 10), 48 + (x % 10) >>
          ELSE << 48 + (x \div 100), 48 + ((x \div 10) % 10), 48 + (x % 10) >>
Join(parts, sep) == FoldLeft(LAMBDA a, k : IF k = 1 THEN parts[1] ELSE a \o << sep >> \o parts[k], << >>, [k \in 1..Len(parts) |-> k])
Decs(p, sep) == Join([i \in 1..Len(p) |-> Dec(p[i])], sep)
Space == 32
Dot == 46
\* ---- colours: four channel bytes r, g, b, a
Q == 4096                                                         \* unit of normalised inputs
Chan(x) == LET y == IF x < 0 THEN 0 ELSE IF x > Q THEN Q ELSE x IN (2 * 255 * y + Q) \div (2 * Q)    \* nearest, halves up
All4(R(_, _), a, b) == \A i \in 1..4 : R(a[i], b[i])
Cmp(a, b) == << AsInt(a = b), AsInt(a # b), AsInt(All4(LAMBDA x, y : x < y, a, b)), AsInt(All4(LAMBDA x, y : x > y, a, b)),
                AsInt(All4(LAMBDA x, y : x <= y, a, b)), AsInt(All4(LAMBDA x, y : x >= y, a, b)) >>
\* ---- versions: major, minor, patch, build; ordered lexicographically
VLess(a, b) == \E k \in 1..4 : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
VCmp(a, b) == << AsInt(VLess(a, b)), AsInt(VLess(b, a)), AsInt(~VLess(b, a)), AsInt(~VLess(a, b)), AsInt(a = b), AsInt(a # b) >>
\* ---- flags
FOr(a, b) == [i \in 1..Len(a) |-> a[i] | b[i]]
FAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
FXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
FNot(a) == [i \in 1..Len(a) |-> 255 - a[i]]
FZero(a) == \A i \in 1..Len(a) : a[i] = 0
FBool(n, c) == [i \in 1..n |-> IF i = 1 /\ c THEN 1 ELSE 0]
\* ---- mip chains of a 32-bit size
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
MipCount(b) == LET top == CHOOSE i \in 1..Len(b) : b[i] # 0 /\ \A j \in (i + 1)..Len(b) : b[j] = 0 IN 8 * (top - 1) + BitLen(b[top])
Shr(b, m) == [i \in 1..Len(b) |-> LET k == i + (m \div 8)  s == m % 8 IN
               (ByteAt(b, k) \div Pow2(s)) + ((ByteAt(b, k + 1) * Pow2(8 - s)) % 256)]
SizeAt(b, m) == LET s == Shr(b, m) IN IF FZero(s) THEN FBool(Len(b), TRUE) ELSE s
UMax(a, b) == IF \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in (k + 1)..Len(a) : a[j] = b[j] THEN b ELSE a
=============================================================================
