------------------------------- MODULE OomMC --------------------------------
(* Insertion into a map kept in several growing arrays when the f-th        *)
(* allocation of the call fails: keys, then either the value array, or the  *)
(* append-only value store and its index table.  Each array allocates when  *)
(* it is full; a failure undoes the arrays already changed.  Atomicity: a   *)
(* failed call leaves the map as it was and says so, and the same call      *)
(* succeeds when repeated.  Prints every history with its failures.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Blk, MaxOps, Table
VARIABLES keys, vals, idx, store, cap, m, last, hist
vars == <<keys, vals, idx, store, cap, m, last, hist>>
View == <<keys, idx, vals, store, cap, last>>
Ins(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
Rem(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
PosOf(k) == Cardinality({i \in 1..Len(keys) : keys[i] < k})
Has(k) == \E i \in 1..Len(keys) : keys[i] = k
Need(s, c) == IF Len(s) = c THEN 1 ELSE 0
MCInit == keys = <<>> /\ vals = <<>> /\ idx = <<>> /\ store = <<>> /\ cap = <<0, 0, 0>> /\ m = [x \in {} |-> 0] /\ last = "ok" /\ hist = <<>>
Grown(i, n) == IF n = 1 THEN cap[i] + Blk ELSE cap[i]
\* allocations of the call in order: keys, store/vals, idx
Insert(k, v, f) == LET p == PosOf(k) n1 == Need(keys, cap[1]) n2 == Need(IF Table THEN store ELSE vals, cap[2])
                       n3 == IF Table THEN Need(idx, cap[3]) ELSE 0
                       \* the array whose allocation fails (0 = none)
                       bad == IF n1 = 1 /\ f = 1 THEN 1 ELSE IF n2 = 1 /\ f = n1 + 1 THEN 2 ELSE IF n3 = 1 /\ f = n1 + n2 + 1 THEN 3 ELSE 0 IN
  /\ hist' = Append(hist, "ins " \o ToString(k) \o " " \o ToString(v) \o " !" \o ToString(f)) /\ PrintT("@S" \o ToJson(hist'))
  /\ IF Has(k) THEN /\ vals' = [vals EXCEPT ![p + 1] = v] /\ store' = (IF Table THEN [store EXCEPT ![idx[p + 1] + 1] = v] ELSE store)
                    /\ m' = [m EXCEPT ![k] = v] /\ last' = "ok" /\ UNCHANGED <<keys, idx, cap>>
     ELSE IF bad = 0 THEN
          /\ keys' = Ins(keys, p, k) /\ vals' = Ins(vals, p, v)
          /\ store' = (IF Table THEN Append(store, v) ELSE store) /\ idx' = (IF Table THEN Ins(idx, p, Len(store)) ELSE idx)
          /\ cap' = <<Grown(1, n1), Grown(2, n2), Grown(3, n3)>>
          /\ m' = [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]] /\ last' = "ok"
     ELSE \* roll back: arrays before the failing one have grown but hold their old contents
          /\ cap' = [i \in 1..3 |-> IF i < bad THEN Grown(i, <<n1, n2, n3>>[i]) ELSE cap[i]]
          /\ last' = "fail" /\ UNCHANGED <<keys, vals, idx, store, m>>
Delete(p) == /\ p < Len(keys) /\ keys' = Rem(keys, p) /\ vals' = Rem(vals, p) /\ idx' = (IF Table THEN Rem(idx, p) ELSE idx)
             /\ m' = [x \in DOMAIN m \ {keys[p + 1]} |-> m[x]] /\ last' = "ok" /\ UNCHANGED <<store, cap>>
             /\ hist' = Append(hist, "delp " \o ToString(p)) /\ PrintT("@S" \o ToJson(hist'))
MCNext == Len(hist) < MaxOps /\ (\/ \E k \in Keys, f \in 0..3 : Insert(k, Len(hist) + 1, f)
                                 \/ \E p \in 0..Cardinality(Keys) : Delete(p))
Aligned == /\ Len(keys) = Len(vals) /\ Cardinality(DOMAIN m) = Len(keys)
           /\ \A i \in 1..Len(keys) : keys[i] \in DOMAIN m /\ vals[i] = m[keys[i]]
           /\ (Table => Len(idx) = Len(keys) /\ \A i \in 1..Len(idx) : store[idx[i] + 1] = vals[i])
           /\ Len(keys) <= cap[1]
FailKeeps == [][last' = "fail" => m' = m]_vars
=============================================================================
