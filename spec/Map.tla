--------------------------------- MODULE Map --------------------------------
(* An ordered map from integer keys to integer values, as bmap and hbmap      *)
(* present it.  rev: the comparator orders keys descending.                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES m, rev
NoKey == -1
Dom == DOMAIN m
Before(a, b) == IF rev = 1 THEN a > b ELSE a < b
Idx(D, k) == Cardinality({x \in D : Before(x, k)})            \* 0-based index of k in D
KeyAt(i) == CHOOSE k \in Dom : Idx(Dom, k) = i
Upd(k, v) == [x \in Dom \cup {k} |-> IF x = k THEN v ELSE m[x]]
Without(k) == [x \in Dom \ {k} |-> m[x]]

\* --- index interface (bmap)
Insert(k, v, r)  == m' = Upd(k, v) /\ r = Idx(Dom \cup {k}, k)
InsertFail(r)    == r = -1 /\ UNCHANGED m
InsertNoCheck(k, v, r) == k \notin Dom /\ Insert(k, v, r)
Find(k, r)       == r = (IF k \in Dom THEN Idx(Dom, k) ELSE -1) /\ UNCHANGED m
Contains(k, r)   == r = (IF k \in Dom THEN 1 ELSE 0) /\ UNCHANGED m
Get(k, r)        == r = (IF k \in Dom THEN m[k] ELSE -1) /\ UNCHANGED m
SetAt(v, p)      == p < Cardinality(Dom) /\ m' = [m EXCEPT ![KeyAt(p)] = v]
DeleteAt(p)      == p < Cardinality(Dom) /\ m' = Without(KeyAt(p))
\* the complete contents in comparator order
OrderedM(f, ks, vs) ==
                    /\ Len(ks) = Cardinality(DOMAIN f) /\ Len(vs) = Len(ks)
                    /\ \A i \in 1..Len(ks) : ks[i] \in DOMAIN f /\ vs[i] = f[ks[i]]
                    /\ \A i \in 1..Len(ks) - 1 : Before(ks[i], ks[i + 1])
Ordered(ks, vs)  == OrderedM(m, ks, vs)
\* --- iterator interface (hbmap): an iterator is observed as the entry it denotes
At(k, ik, iv, v) == ik = k /\ iv = v
HInsert(k, v, ik, iv) == m' = Upd(k, v) /\ At(k, ik, iv, v)
HFind(k, ik, iv)      == (IF k \in Dom THEN At(k, ik, iv, m[k]) ELSE ik = NoKey) /\ UNCHANGED m
HSet(k, v)            == k \in Dom /\ m' = Upd(k, v)
HDelete(k)            == k \in Dom /\ m' = Without(k)
\* an iteration: every entry exactly once, in any order
OnceM(f, ks, vs) == /\ Len(ks) = Cardinality(DOMAIN f) /\ Len(vs) = Len(ks)
                    /\ {ks[i] : i \in 1..Len(ks)} = DOMAIN f
                    /\ \A i \in 1..Len(ks) : vs[i] = f[ks[i]]
Empty            == m' = [x \in {} |-> 0]
MInit == m = [x \in {} |-> 0] /\ rev = 0
=============================================================================
