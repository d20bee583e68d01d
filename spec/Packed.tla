------------------------------- MODULE Packed -------------------------------
(* PackedVector<Bits>: two containers of small unsigned elements, each an abstract sequence el[k] together with the byte
   string by[k] that stores it (element i occupies Bits bits of byte i*Bits/8, lowest bits first). The byte level is changed
   by the shift and mask operations of an implementation, the sequence by the operations' meaning; Stored is the refinement. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
VARIABLES bits, el, by
pvars == << bits, el, by >>
Ks == 1..2
Other(k) == 3 - k
Per(b) == 8 \div b
ByteLen(b, n) == (n + Per(b) - 1) \div Per(b)
Zeros(n) == [i \in 1..n |-> 0]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Pack(b, s) == [j \in 1..ByteLen(b, Len(s)) |->
                 FoldLeft(LAMBDA a, k : a + At(s, (j - 1) * Per(b) + k) * 2^((k - 1) * b), 0, [k \in 1..Per(b) |-> k])]
Element(b, p, i) == (p[(i \div Per(b)) + 1] \div 2^((i % Per(b)) * b)) % 2^b     \* zero based
Fit(s, n, z) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE z]

PInit(b) == bits = b /\ el = << << >>, << >> >> /\ by = << << >>, << >> >>
Put(k, e, p) == el' = [el EXCEPT ![k] = e] /\ by' = [by EXCEPT ![k] = p] /\ UNCHANGED bits
\* the byte level of a store: clear the field, insert the masked value
StoreBits(p, i, v) == LET j == (i \div Per(bits)) + 1  sh == 2^((i % Per(bits)) * bits)  m == 2^bits - 1 IN
  [p EXCEPT ![j] = (p[j] & (255 - m * sh)) | ((v & m) * sh)]
\* the byte level of a resize: bytes are kept or zero filled, and the unused fields of the last byte are cleared
ResizeBits(p, n) == LET q == Fit(p, ByteLen(bits, n), 0)  r == n % Per(bits) IN
  IF r = 0 THEN q ELSE [q EXCEPT ![Len(q)] = @ & (2^(r * bits) - 1)]

New(k, n) == Put(k, Zeros(n), Zeros(ByteLen(bits, n)))
Set(k, i, v) == i < Len(el[k]) /\ Put(k, [el[k] EXCEPT ![i + 1] = v % 2^bits], StoreBits(by[k], i, v))
Resize(k, n) == Put(k, Fit(el[k], n, 0), ResizeBits(by[k], n))
Copy(k) == el' = [el EXCEPT ![Other(k)] = el[k]] /\ by' = [by EXCEPT ![Other(k)] = by[k]] /\ UNCHANGED bits
Move(k) == /\ el' = [j \in Ks |-> IF j = k THEN << >> ELSE el[k]]
           /\ by' = [j \in Ks |-> IF j = k THEN << >> ELSE by[k]] /\ UNCHANGED bits
Swap == el' = << el[2], el[1] >> /\ by' = << by[2], by[1] >> /\ UNCHANGED bits
Clear(k) == Put(k, << >>, << >>)
Keep == UNCHANGED pvars                              \* reserve, shrink_to_fit: storage moves, contents stay
\* a whole byte of elements appended through the inherited container
Append8(k, v) == Len(el[k]) % Per(bits) = 0 /\ Put(k, el[k] \o [i \in 1..Per(bits) |-> (v \div 2^((i - 1) * bits)) % 2^bits], Append(by[k], v))

Stored == \A k \in Ks : by[k] = Pack(bits, el[k]) /\ \A i \in 1..Len(el[k]) : Element(bits, by[k], i - 1) = el[k][i]
=============================================================================
