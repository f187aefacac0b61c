-------------------------------- MODULE Own ---------------------------------
(* Who owns a heap payload: live payloads, those currently stored in the    *)
(* container as keys or values, and (index-table lists) the values which    *)
(* were deleted but by design stay in the value store.  Releasing functions *)
(* free exactly what they are documented to free.                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live, sk, sv, grave, it
ovars == <<live, sk, sv, grave, it>>
OInit == live = {} /\ sk = {} /\ sv = {} /\ grave = {} /\ it = FALSE
New(i) == live' = {} /\ sk' = {} /\ sv' = {} /\ grave' = {} /\ it' = i
Opt(x) == IF x = 0 THEN {} ELSE {x}
\* store value v (and key k if it is new), replacing the value old
Put(k, v, old, newkey) == /\ live' = live \cup Opt(k) \cup {v}
   /\ sv' = (sv \ Opt(old)) \cup {v} /\ sk' = (IF newkey THEN sk \cup {k} ELSE sk) /\ UNCHANGED <<grave, it>>
\* many new entries at once: keys K, values V
Many(K, V) == live' = live \cup K \cup V /\ sk' = sk \cup K /\ sv' = sv \cup V /\ UNCHANGED <<grave, it>>
PutFail(k, v) == live' = live \cup Opt(k) \cup {v} /\ UNCHANGED <<sk, sv, grave, it>>
Del(k, v, deep) == /\ v \in sv /\ (k = 0 \/ k \in sk) /\ sv' = sv \ {v} /\ sk' = sk \ Opt(k)
   /\ grave' = (IF it THEN grave \cup {v} ELSE grave)
   /\ live' = (IF deep THEN live \ {v} ELSE live) /\ UNCHANGED it
ProgFree(i) == i \in live /\ i \notin sk \cup sv \cup grave /\ live' = live \ {i} /\ UNCHANGED <<sk, sv, grave, it>>
Clear(deep) == live' = (IF deep THEN live \ sv ELSE live) /\ sv' = {} /\ UNCHANGED <<sk, grave, it>>
Drop(f1, f2) == /\ live' = (live \ (IF f1 THEN sk ELSE {})) \ (IF f2 THEN sv \cup grave ELSE {})
   /\ sk' = {} /\ sv' = {} /\ grave' = {} /\ UNCHANGED it
=============================================================================
