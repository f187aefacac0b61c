------------------------------ MODULE HashList ------------------------------
(* hashlist: values are added under a hash; a bucket (observed by its         *)
(* identity b, a positive number, 0 = NULL) holds the values of the hashes    *)
(* that fall together, in insertion order.  All values of a session differ.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES bk,      \* bucket identity -> sequence of values
          hb,      \* hash -> bucket identity, for hashes used so far
          nb       \* bucket count
hvars == <<bk, hb, nb>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cont(b) == IF b \in DOMAIN bk THEN bk[b] ELSE <<>>
Place(h, b) == /\ b > 0 /\ (h \in DOMAIN hb => hb[h] = b)
               /\ Cardinality(DOMAIN bk \cup {b}) <= nb
New(n) == bk' = [x \in {} |-> <<>>] /\ hb' = [x \in {} |-> 0] /\ nb' = n
Add(h, v, b, r) == /\ r = 0 /\ Place(h, b)
                   /\ bk' = Put(bk, b, Append(Cont(b), v)) /\ hb' = Put(hb, h, b) /\ UNCHANGED nb
\* failed for lack of memory: an empty bucket may exist afterwards
AddFail(h, b, r) == /\ r = -1 /\ UNCHANGED nb
                    /\ IF b = 0 THEN UNCHANGED <<bk, hb>>
                       ELSE Place(h, b) /\ bk' = Put(bk, b, Cont(b)) /\ hb' = Put(hb, h, b)
Get(h, b, vs) == /\ IF b = 0 THEN h \notin DOMAIN hb
                    ELSE (h \in DOMAIN hb => hb[h] = b) /\ b \in DOMAIN bk /\ vs = bk[b]
                 /\ UNCHANGED hvars
DelIn(b, i) == /\ b \in DOMAIN bk /\ i < Len(bk[b])
               /\ bk' = Put(bk, b, SubSeq(bk[b], 1, i) \o SubSeq(bk[b], i + 2, Len(bk[b])))
               /\ UNCHANGED <<hb, nb>>
AllVals == UNION {{bk[b][i] : i \in 1..Len(bk[b])} : b \in DOMAIN bk}
\* a complete iteration; again = results of further calls after the end (0 = NULL)
Iterate(vs, again) == /\ Cardinality({vs[i] : i \in 1..Len(vs)}) = Len(vs)
                      /\ {vs[i] : i \in 1..Len(vs)} = AllVals
                      /\ again = 0 /\ UNCHANGED hvars
Buckets(bs) == /\ Cardinality({bs[i] : i \in 1..Len(bs)}) = Len(bs)
               /\ {bs[i] : i \in 1..Len(bs)} = DOMAIN bk /\ UNCHANGED hvars
HInit == bk = [x \in {} |-> <<>>] /\ hb = [x \in {} |-> 0] /\ nb = 1
=============================================================================
