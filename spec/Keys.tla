-------------------------------- MODULE Keys --------------------------------
(* An ordered container keyed by values compared by their representation: a map, whose listing shows every key once and in an
   order that never depends on how the container came to hold them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES map,   \* from keys to contents
          rel    \* pairs of keys seen in a listing, the first before the second
kvars == << map, rel >>
KInit == map = << >> /\ rel = {}
KNew == map' = << >> /\ rel' = {}
Held == DOMAIN map
Put(k, v) == map' = (k :> v) @@ map /\ UNCHANGED rel
Drop(k) == map' = [x \in Held \ {k} |-> map[x]] /\ UNCHANGED rel
Before(s) == { << s[i], s[j] >> : <<i, j>> \in { p \in (1..Len(s)) \X (1..Len(s)) : p[1] < p[2] } }
Listing(s) ==
  /\ Len(s) = Cardinality(Held) /\ { s[i] : i \in 1..Len(s) } = Held
  /\ \A p \in Before(s) : << p[2], p[1] >> \notin rel
  /\ rel' = rel \cup Before(s) /\ UNCHANGED map
=============================================================================
