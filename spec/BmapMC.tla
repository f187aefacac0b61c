------------------------------- MODULE BmapMC -------------------------------
(* bmap as kept by the implementation: a sorted key list and a parallel       *)
(* value list (plain, and as index table + append-only store), against Map.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals, MaxStore
VARIABLES keys, vals, idx, store, m, hist
vars == <<keys, vals, idx, store, m, hist>>
View == <<keys, vals, idx, store>>
Abs == INSTANCE Map WITH rev <- 0
Str(x) == ToString(x)
Do(s) == hist' = Append(hist, s) /\ PrintT("@S" \o ToJson(hist'))
Obs(s) == UNCHANGED <<keys, vals, idx, store, m, hist>> /\ PrintT("@S" \o ToJson(Append(hist, s)))
Ins(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
Rem(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
PosOf(k) == Cardinality({i \in 1..Len(keys) : keys[i] < k})
Has(k) == \E i \in 1..Len(keys) : keys[i] = k
MCInit == keys = <<>> /\ vals = <<>> /\ idx = <<>> /\ store = <<>> /\ m = [x \in {} |-> 0] /\ hist = <<>>
MIns(k, v) == LET p == PosOf(k) IN
  /\ IF Has(k) THEN /\ vals' = [vals EXCEPT ![p + 1] = v] /\ store' = [store EXCEPT ![idx[p + 1] + 1] = v]
                    /\ UNCHANGED <<keys, idx>>
     ELSE /\ Len(store) < MaxStore /\ keys' = Ins(keys, p, k) /\ vals' = Ins(vals, p, v)
          /\ store' = Append(store, v) /\ idx' = Ins(idx, p, Len(store))
  /\ m' = Abs!Upd(k, v) /\ Do("ins " \o Str(k) \o " " \o Str(v))
MDel(p) == /\ p < Len(keys) /\ keys' = Rem(keys, p) /\ vals' = Rem(vals, p) /\ idx' = Rem(idx, p) /\ UNCHANGED store
           /\ m' = Abs!Without(keys[p + 1]) /\ Do("delp " \o Str(p))
MSet(v, p) == /\ p < Len(keys) /\ vals' = [vals EXCEPT ![p + 1] = v] /\ store' = [store EXCEPT ![idx[p + 1] + 1] = v]
              /\ m' = [m EXCEPT ![keys[p + 1]] = v] /\ UNCHANGED <<keys, idx>> /\ Do("setp " \o Str(v) \o " " \o Str(p))
MCNext == \/ \E k \in Keys, v \in Vals : MIns(k, v)
          \/ \E p \in 0..Cardinality(Keys) : MDel(p) \/ \E v \in Vals : MSet(v, p)
          \/ \E k \in Keys : Obs("find " \o Str(k)) \/ Obs("get " \o Str(k))
PlainOK == Abs!Ordered(keys, vals)
IndexOK == Len(idx) = Len(keys) /\ \A i \in 1..Len(idx) : store[idx[i] + 1] = vals[i]
=============================================================================
