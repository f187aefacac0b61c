------------------------------- MODULE Sorted ------------------------------
(* Lists kept sorted under a comparator: items are integers v; the comparator *)
(* orders them by Rank(v), a total preorder chosen per session (kd items per  *)
(* key; ordr = 1 reverses the order, 2 makes it coarser).                     *)
EXTENDS SeqList
VARIABLES kd, ordr
Rank(v) == LET k == v \div kd IN CASE ordr = 0 -> k [] ordr = 1 -> -k [] ordr = 2 -> k \div 2 [] ordr = 3 -> -(k \div 3)
SortedSeq(s) == \A i \in 1..Len(s) - 1 : Rank(s[i]) <= Rank(s[i + 1])
\* r is any position that keeps the list sorted; the rest keeps its order
InsertSorted(v, r) ==
  /\ r >= 0 /\ r <= N
  /\ r > 0 => Rank(items[r]) <= Rank(v)
  /\ r < N => Rank(v) <= Rank(items[r + 1])
  /\ items' = InsertAtIdx(items, r, v)
\* is there an item of that rank?  (the list is sorted: bisection)
RECURSIVE Has(_, _, _)
Has(v, lo, h) == IF lo > h THEN FALSE
                 ELSE LET m == (lo + h) \div 2 IN
                      IF Rank(items[m]) = Rank(v) THEN TRUE
                      ELSE IF Rank(items[m]) < Rank(v) THEN Has(v, m + 1, h) ELSE Has(v, lo, m - 1)
BSearch(v, r) ==
  /\ IF r = -1 THEN ~Has(v, 1, N)
               ELSE r >= 0 /\ r < N /\ Rank(items[r + 1]) = Rank(v)
  /\ UNCHANGED items
\* all items of a session are distinct, so a permutation is: same set, same length
Sort(after) ==
  /\ Len(after) = N /\ {after[i] : i \in 1..Len(after)} = {items[i] : i \in 1..N}
  /\ SortedSeq(after) /\ items' = after
=============================================================================
