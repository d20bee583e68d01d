----------------------------- MODULE MC_Packed -----------------------------
EXTENDS Packed
CONSTANTS MaxN, Vals
Init == \E b \in {1, 2, 4} : PInit(b)
Next == \/ \E k \in Ks : \/ \E n \in 0..MaxN : New(k, n) \/ Resize(k, n)
                         \/ \E i \in 0..(MaxN - 1), v \in Vals : Set(k, i, v)
                         \/ Copy(k) \/ Move(k) \/ Clear(k)
        \/ Swap
Small == \A k \in Ks : Len(el[k]) <= MaxN
Spec == Init /\ [][Next]_pvars
\* a store changes exactly its element, in its container
Local == [][\A k \in Ks, i \in 0..(MaxN - 1), v \in Vals : Set(k, i, v) =>
              \A j \in Ks : Len(el'[j]) = Len(el[j]) /\ \A q \in 1..Len(el[j]) : el'[j][q] = IF j = k /\ q = i + 1 THEN v % 2^bits ELSE el[j][q]]_pvars
=============================================================================
