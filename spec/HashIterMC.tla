----------------------------- MODULE HashIterMC -----------------------------
(* The value iterator of hashlist over a vector of buckets (-1 = NULL, else    *)
(* number of values): bucket position, position in bucket; each call of next   *)
(* is a loop of small steps.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NB, MaxSz
VARIABLES sz, bp, pos, pc, seen, ends
vars == <<sz, bp, pos, pc, seen, ends>>
MCInit == /\ sz \in [0..NB - 1 -> -1..MaxSz] /\ bp = -1 /\ pos = -1 /\ pc = "call" /\ seen = <<>> /\ ends = 0
          /\ PrintT("@S" \o ToJson([x \in 1..NB |-> sz[x - 1]]))
Call == /\ pc = "call" /\ ends < 2
        /\ IF bp >= NB THEN ends' = ends + 1 /\ UNCHANGED <<pos, pc>>
           ELSE pos' = pos + 1 /\ pc' = "loop" /\ UNCHANGED ends
        /\ UNCHANGED <<sz, bp, seen>>
Loop == /\ pc = "loop"
        /\ IF bp = -1 \/ pos >= sz[bp] THEN pos' = 0 /\ bp' = bp + 1 /\ pc' = "bucket" /\ UNCHANGED seen
           ELSE seen' = Append(seen, <<bp, pos>>) /\ pc' = "call" /\ UNCHANGED <<pos, bp>>
        /\ UNCHANGED <<sz, ends>>
Bucket == /\ pc = "bucket"
          /\ IF bp < NB THEN IF sz[bp] = -1 THEN bp' = bp + 1 /\ UNCHANGED <<pc, ends>> ELSE pc' = "loop" /\ UNCHANGED <<bp, ends>>
             ELSE pc' = "call" /\ ends' = ends + 1 /\ UNCHANGED bp
          /\ UNCHANGED <<sz, pos, seen>>
MCNext == Call \/ Loop \/ Bucket
All == {<<b, i>> \in (0..NB - 1) \X (0..MaxSz) : i < sz[b]}
Once == Cardinality({seen[i] : i \in 1..Len(seen)}) = Len(seen)
Complete == ends > 0 => {seen[i] : i \in 1..Len(seen)} = All
Final == [][ends > 0 => seen' = seen]_vars
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
Ends == <>(ends = 2)
=============================================================================
