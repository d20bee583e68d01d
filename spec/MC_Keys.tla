------------------------------ MODULE MC_Keys -------------------------------
(* A sorted array searched by halving, as containers do, under a comparison that is Less: with a strict total order it refines
   the map of Keys.  Wrong = TRUE leaves the last component out of the comparison, and the refinement must then break. *)
EXTENDS Keys
CONSTANTS W,      \* the words a component takes
          Wrong
VARIABLES arr     \* << key, content >> in order
vars == << arr, map, rel >>
Values == W \X W
Less(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE IF Wrong THEN FALSE ELSE a[2] < b[2]
\* the first place in lo..hi whose key is not Less than k
RECURSIVE Find(_, _, _, _)
Find(s, k, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF Less(s[mid][1], k) THEN Find(s, k, mid + 1, hi) ELSE Find(s, k, lo, mid)
At(s, k) == Find(s, k, 1, Len(s) + 1)
Has(s, k) == LET i == At(s, k) IN i <= Len(s) /\ ~Less(k, s[i][1])
Init == KInit /\ arr = << >>
DoPut(k, v) ==
  /\ LET i == At(arr, k) IN arr' = IF Has(arr, k) THEN [arr EXCEPT ![i] = << arr[i][1], v >>]
                                   ELSE SubSeq(arr, 1, i - 1) \o << << k, v >> >> \o SubSeq(arr, i, Len(arr))
  /\ Put(k, v)
DoDrop(k) ==
  /\ LET i == At(arr, k) IN arr' = IF Has(arr, k) THEN SubSeq(arr, 1, i - 1) \o SubSeq(arr, i + 1, Len(arr)) ELSE arr
  /\ Drop(k)
Next == \E k \in Values : DoDrop(k) \/ \E v \in {0, 1} : DoPut(k, v)
Spec == Init /\ [][Next]_vars
Keyed == [i \in 1..Len(arr) |-> arr[i][1]]
Refines == /\ Len(arr) = Cardinality(Held) /\ { Keyed[i] : i \in 1..Len(arr) } = Held
           /\ \A i \in 1..Len(arr) : map[arr[i][1]] = arr[i][2]
           /\ \A k \in Values : Has(arr, k) <=> k \in Held
\* the listing is the one every history leads to
Canonical == \A p \in Before(Keyed) : Less(p[1], p[2])
=============================================================================
