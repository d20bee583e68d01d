------------------------------ MODULE MC_Lanes ------------------------------
(* Laws of building, converting and writing vectors; one state per case. *)
EXTENDS Lanes, Word
VARIABLES case
\* every way of cutting the lanes 11, 22, 33, 44 (or a beginning of them) into parts
RECURSIVE Cuts(_)
Cuts(s) == IF s = << >> THEN { << >> } ELSE UNION { { << SubSeq(s, 1, i) >> \o c : c \in Cuts(SubSeq(s, i + 1, Len(s))) } : i \in 1..Len(s) }
Lane == << 11, 22, 33, 44 >>
Words32 == (-40..40) \cup { s * (x + d) : s \in {-1, 1}, x \in {10, 99, 1000, 65535, 999999, 16777216, 999999990, 2147483637}, d \in -11..10 } \cup {-2147483647 - 1}
Init ==
  \/ \E k \in 1..4 : \E p \in Cuts(SubSeq(Lane, 1, k)) : \E n \in 2..4 : case = [k |-> "made", n |-> n, p |-> p, s |-> SubSeq(Lane, 1, k)]
  \/ \E x \in -200..200 : case = [k |-> "quot", x |-> x]
  \/ \E x \in Words32 : case = [k |-> "text", x |-> x]
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
\* only the sequence of lanes matters, and what fits is kept
MadeLaws == case.k = "made" => LET v == Made(case.p, case.n)  s == case.s IN
  /\ v = Made(<< s >>, case.n) /\ Len(v) = case.n
  /\ \A i \in 1..case.n : v[i] = IF i <= Len(s) THEN s[i] ELSE s[Len(s)]
  /\ \A m \in 2..case.n : Made(<< v >>, m) = SubSeq(v, 1, m)
  /\ Made(<< v >>, 4) = Made(<< SubSeq(v, 1, 2), SubSeq(v, 3, Len(v)) >>, 4)
QuotLaws == case.k = "quot" => LET x == case.x  q == Quot4(x) IN
  /\ Quot4(4 * x) = x /\ Quot4(-x) = -q /\ (x >= 0 => 4 * q <= x /\ x < 4 * q + 4)
\* reading the digits back gives the number
Digit(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE Read(_)
Read(s) == IF Len(s) = 0 THEN WZero ELSE WAdd(WMul(Read(SubSeq(s, 1, Len(s) - 1)), W(10)), W(Digit(SubSeq(s, Len(s), Len(s)))))
TextLaws == case.k = "text" => LET x == case.x  u == DecU(x)  i == Dec("int", x) IN
  /\ Signed(Read(u)) = x /\ (Len(u) > 1 => SubSeq(u, 1, 1) # "0")
  /\ IF x < 0 THEN SubSeq(i, 1, 1) = "-" /\ Signed(WNeg(Read(SubSeq(i, 2, Len(i))))) = x ELSE i = u
  /\ LET q == x % 100000  t == Dec("float", q)  n == Len(t) IN
       /\ SubSeq(t, n - 6, n - 6) = "."
       /\ Read(SubSeq(t, 1, n - 7)) = W(q \div 4) /\ Read(SubSeq(t, n - 5, n)) = W((q % 4) * 250000)
       /\ (q > 0 => Dec("float", -q) = "-" \o t)
  /\ Words("uint", << x, 5, x >>) = u \o " 5 " \o u
=============================================================================
