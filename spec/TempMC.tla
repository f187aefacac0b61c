------------------------------- MODULE TempMC -------------------------------
(* Several makers of temporary directories, interleaved with each other and *)
(* with an intruder that creates names at any time.  A maker picks a        *)
(* candidate and claims it with mkdir: success only if the name was free    *)
(* (atomic); an existing name is retried with another candidate, any other  *)
(* error makes it go to the second location, then give up.  Prints the      *)
(* outcome sequences one maker can see.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Makers, Names, MaxTries
VARIABLES fs, mk, bad, hist
vars == <<fs, mk, bad, hist>>
Locs == {1, 2}
MCInit == /\ fs \in { [l \in Locs |-> S] : S \in SUBSET Names } /\ bad \in SUBSET Locs
          /\ mk = [m \in Makers |-> [loc |-> 1, st |-> "try", name |-> 0, tries |-> 0]] /\ hist = <<>>
Rec(m, o) == IF m = 1 THEN hist' = Append(hist, o) ELSE UNCHANGED hist
Try(m, n) == /\ mk[m].st = "try" /\ mk[m].tries < MaxTries /\ UNCHANGED bad
             /\ LET l == mk[m].loc IN
                IF l \in bad THEN /\ mk' = [mk EXCEPT ![m] = IF l = 1 THEN [@ EXCEPT !.loc = 2, !.tries = @ + 1] ELSE [@ EXCEPT !.st = "fail"]] /\ UNCHANGED fs /\ Rec(m, "D")
                ELSE IF n \in fs[l] THEN /\ mk' = [mk EXCEPT ![m].tries = @ + 1] /\ UNCHANGED fs /\ Rec(m, "E")
                ELSE /\ fs' = [fs EXCEPT ![l] = @ \cup {n}] /\ mk' = [mk EXCEPT ![m].st = "ok", ![m].name = n] /\ Rec(m, "O")
Intrude(l, n) == n \notin fs[l] /\ fs' = [fs EXCEPT ![l] = @ \cup {n}] /\ UNCHANGED <<mk, bad, hist>>
MCNext == \/ \E m \in Makers, n \in Names : Try(m, n)
          \/ \E l \in Locs, n \in Names : Intrude(l, n)
\* a name handed out is in the file system, and no two makers hold the same one
Fresh == \A a, b \in Makers : a # b /\ mk[a].st = "ok" /\ mk[b].st = "ok" => <<mk[a].loc, mk[a].name>> # <<mk[b].loc, mk[b].name>>
Exists == \A a \in Makers : mk[a].st = "ok" => mk[a].name \in fs[mk[a].loc] /\ mk[a].loc \notin bad
NewOnly == [][\A a \in Makers : mk[a].st = "try" /\ mk'[a].st = "ok" => mk'[a].name \notin fs[mk[a].loc]]_vars
Second == \A a \in Makers : mk[a].st = "fail" => bad = Locs
Emit == mk[1].st # "try" => PrintT("@S" \o ToJson(hist))
Spec == MCInit /\ [][MCNext]_vars
=============================================================================
