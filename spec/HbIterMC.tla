------------------------------ MODULE HbIterMC ------------------------------
(* The foreach iteration of hbmap: iterator = (bucket, index), next_step and  *)
(* skip-empty loop as in the implementation, for every vector of bucket       *)
(* sizes, plain and with the documented delete-while-iterating body.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NB, MaxSz
VARIABLES sz, b, i, pc, seen, del, orig
vars == <<sz, b, i, pc, seen, del, orig>>
Valid == b < NB /\ i < sz[b]
MCInit == /\ sz \in [0..NB - 1 -> 0..MaxSz] /\ orig = sz /\ b = 0 /\ i = 0 /\ seen = <<>> /\ del \in BOOLEAN
          /\ pc = "start"
          /\ LET F(x) == ToString(sz[x]) IN PrintT("@S" \o ToJson([del |-> del, sz |-> [x \in 1..NB |-> sz[x - 1]]]))
Start == pc = "start" /\ pc' = (IF 0 < sz[0] THEN "test" ELSE "next") /\ UNCHANGED <<sz, b, i, seen, del, orig>>
Next1 == /\ pc = "next"
         /\ LET nb == IF b < NB /\ i + 1 < sz[b] THEN b ELSE b + 1
                ni == IF b < NB /\ i + 1 < sz[b] THEN i + 1 ELSE 0 IN
            /\ b' = nb /\ i' = ni
            /\ pc' = (IF nb < NB /\ ~(ni < sz[nb]) THEN "next" ELSE "test")
         /\ UNCHANGED <<sz, seen, del, orig>>
Test == pc = "test" /\ pc' = (IF Valid THEN "body" ELSE "end") /\ UNCHANGED <<sz, b, i, seen, del, orig>>
Body == /\ pc = "body"
        /\ IF ~del THEN seen' = Append(seen, <<b, i>>) /\ pc' = "next" /\ UNCHANGED sz
           ELSE IF i < sz[b] THEN seen' = Append(seen, <<b, Len(seen)>>) /\ sz' = [sz EXCEPT ![b] = @ - 1] /\ UNCHANGED pc
           ELSE pc' = "next" /\ UNCHANGED <<sz, seen>>
        /\ UNCHANGED <<b, i, del, orig>>
\* "body" with del re-tests the index before each delete; the first pass is valid
MCNext == Start \/ Next1 \/ Test \/ Body
Total(f) == LET RECURSIVE S(_)
                S(x) == IF x < 0 THEN 0 ELSE f[x] + S(x - 1) IN S(NB - 1)
AllOnce == pc = "end" => /\ Len(seen) = Total(orig)
                         /\ Cardinality({seen[x] : x \in 1..Len(seen)}) = Len(seen)
                         /\ (~del => {seen[x] : x \in 1..Len(seen)} = {<<x, y>> \in (0..NB - 1) \X (0..MaxSz) : y < orig[x]})
                         /\ (del => \A x \in 0..NB - 1 : sz[x] = 0)
Forward == [][b' >= b]_vars
Ends == <>(pc = "end")
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
=============================================================================
