------------------------------- MODULE OwnMC --------------------------------
(* Containers of owned pointers, all histories within the bounds: no        *)
(* payload is freed twice, none is freed while stored and not asked for,    *)
(* and when a history ends with the documented release plus the program     *)
(* freeing what it took back, nothing is left.  Prints every history.       *)
EXTENDS Own, TLC, Json
CONSTANTS Keyed, Table, HasDeep, MaxPut, MaxOps
VARIABLES hist, n, freed, done
mvars == <<hist, n, freed, done>>
View == <<live, sk, sv, grave, done>>
Do(x) == hist' = Append(hist, x)
Pr == PrintT("@S" \o ToJson(hist'))
Dead == live \ live'
MCInit == OInit /\ hist = <<>> /\ n = 0 /\ freed = {} /\ done = FALSE
Step == freed' = freed \cup Dead
MPut == /\ n < MaxPut /\ n' = n + (IF Keyed THEN 2 ELSE 1) /\ Do("put") /\ UNCHANGED done
        /\ Put(IF Keyed THEN n + 2 ELSE 0, n + 1, 0, Keyed) /\ Step
MDel(i) == \E v \in sv : LET r == Cardinality({x \in sv : x < v}) IN
        /\ r = i /\ Del(IF Keyed THEN v + 1 ELSE 0, v, FALSE) /\ Do("del " \o ToString(i)) /\ Step /\ UNCHANGED <<n, done>>
MDelDeep(i) == HasDeep /\ \E v \in sv : LET r == Cardinality({x \in sv : x < v}) IN
        /\ r = i /\ Del(0, v, TRUE) /\ Do("deld " \o ToString(i)) /\ Step /\ UNCHANGED <<n, done>>
MFree == \E x \in live : ProgFree(x) /\ Do("pfree " \o ToString(x)) /\ Step /\ UNCHANGED <<n, done>>
MDrop == \E f1 \in {FALSE, TRUE}, f2 \in {FALSE, TRUE} : /\ (f1 => Keyed) /\ Drop(f1, f2) /\ Step /\ done' = TRUE /\ UNCHANGED n
        /\ Do("drop " \o ToString((IF f1 THEN 1 ELSE 0) + (IF f2 THEN 2 ELSE 0))) /\ Pr
MCNext == ~done /\ Len(hist) < MaxOps /\ (MPut \/ MFree \/ MDrop \/ \E i \in 0..MaxPut : MDel(i) \/ MDelDeep(i))
NoDouble == [][Dead \cap freed = {}]_<<live, freed>>
StoredLive == ~done => sk \cup sv \cup grave \subseteq live
=============================================================================
