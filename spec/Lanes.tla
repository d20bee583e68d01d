------------------------------- MODULE Lanes --------------------------------
(* How vectors are put together, taken apart, converted and written down. *)
EXTENDS Integers, Sequences, TLC
\* a vector is the concatenation of the parts it is made from; short lists repeat their last lane (one scalar fills every lane)
RECURSIVE Concat(_)
Concat(p) == IF p = << >> THEN << >> ELSE Head(p) \o Concat(Tail(p))
Made(p, n) == LET s == Concat(p) IN [i \in 1..n |-> s[IF i <= Len(s) THEN i ELSE Len(s)]]
\* quarters to whole numbers, towards zero
Quot4(x) == IF x < 0 THEN -((-x) \div 4) ELSE x \div 4
Axis(n, i, v) == [k \in 1..n |-> IF k = i THEN v ELSE 0]
\* the text of a vector: its lanes in order, in decimal; floats with six decimals (lanes counted in quarters)
DecU(x) == IF x >= 0 THEN ToString(x)      \* the word x as an unsigned number: 2^31 = 214748364 * 10 + 8
           ELSE LET m == x + 2147483647 + 1 IN ToString(214748364 + (m \div 10) + (((m % 10) + 8) \div 10)) \o ToString(((m % 10) + 8) % 10)
DecF(x) == LET m == IF x < 0 THEN -x ELSE x IN
  (IF x < 0 THEN "-" ELSE "") \o ToString(m \div 4) \o "." \o << "000000", "250000", "500000", "750000" >>[(m % 4) + 1]
Dec(ty, x) == IF ty \in {"int", "i32x4"} THEN ToString(x) ELSE IF ty \in {"uint", "u32x4"} THEN DecU(x) ELSE DecF(x)
RECURSIVE Words(_, _)
Words(ty, a) == IF Len(a) = 1 THEN Dec(ty, a[1]) ELSE Dec(ty, a[1]) \o " " \o Words(ty, Tail(a))
=============================================================================
