------------------------------ MODULE ProcTrace -----------------------------
(* C27.  The caller's descriptors (as <<number, identity>>), the children   *)
(* and their pipes; identities of pipes are inode numbers renamed by order. *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
VARIABLES fds, kid
pv == <<fds, kid>>
K0 == [st |-> "none", ids |-> <<>>, code |-> 0, fd |-> <<>>]
Set(s) == { s[i] : i \in 1..Len(s) }
TInit == TraceInit /\ fds = {} /\ kid = [k \in 0..7 |-> K0]
Start == IsEvent("S") /\ fds' = Set(ev.fds) /\ kid' = [k \in 0..7 |-> K0]
\* entries <<fd, identity, close-on-exec>>
Inherit(t) == { <<e[1], e[2]>> : e \in { x \in t : x[3] = 0 /\ x[1] > 2 } }
OpenOk == /\ ev.r = 0
          /\ LET new == Set(ev.fds) \ fds IN
             /\ fds \subseteq Set(ev.fds) /\ Cardinality(new) = 3
             /\ { e[1] : e \in new } = Set(ev.pf) /\ Cardinality(Set(ev.pf)) = 3
             /\ kid' = [kid EXCEPT ![ev.k] = [st |-> "run", ids |-> [i \in 1..3 |-> (CHOOSE e \in new : e[1] = ev.pf[i])[2]], code |-> -1, fd |-> ev.pf]]
             /\ Cardinality({ e[2] : e \in new }) = 3 /\ \A e \in new : e[2] < 0 /\ \A o \in fds : o[2] # e[2]
          /\ fds' = Set(ev.fds)
OpenFail == ev.r = -1 /\ ev.errno # 0 /\ Set(ev.fds) = fds /\ ev.nochild = 1 /\ UNCHANGED pv
Open == /\ IsEvent("open")
        /\ IF ev.bad = 1 THEN OpenFail ELSE OpenOk \/ (ev.fault = 1 /\ OpenFail)
\* what the child says about itself: arguments and descriptors; inherited ones are those of the caller that are not close-on-exec
Info == /\ IsEvent("info") /\ kid[ev.k].st \in {"run", "eof"} /\ ev.got = 1
        /\ ev.argv = ev.want
        /\ LET t == Set(ev.fds) inh == { e \in t : e[1] > 2 } IN
           /\ { e \in t : e[1] <= 2 } = { <<i - 1, kid[ev.k].ids[i]>> : i \in 1..3 }
           /\ inh = Inherit({ e \in fds : e[2] >= 0 })
        /\ UNCHANGED pv
Say == IsEvent("say") /\ kid[ev.k].st = "run" /\ ev.got = 1 /\ ev.o = ev.s /\ UNCHANGED pv
EofIn == /\ IsEvent("eofin") /\ kid[ev.k].st = "run" /\ ev.got = 1 /\ ev.o = <<69, 79, 70>>
         /\ fds' = { e \in fds : e[1] # kid[ev.k].fd[1] } /\ kid' = [kid EXCEPT ![ev.k].st = "eof", ![ev.k].code = ev.code, ![ev.k].fd[1] = -1]
Exit == IsEvent("exit") /\ kid[ev.k].st = "run" /\ ev.eof1 = 1 /\ ev.eof2 = 1 /\ kid' = [kid EXCEPT ![ev.k].st = "exit", ![ev.k].code = ev.code] /\ UNCHANGED fds
\* a child that has not been told to exit gets end-of-file from the close and exits with its own code
Close == /\ IsEvent("close") /\ kid[ev.k].st # "none" /\ ev.r = (IF kid[ev.k].code >= 0 THEN kid[ev.k].code ELSE ev.defcode) /\ ev.gone = 1
         /\ fds' = { e \in fds : ~\E i \in 1..3 : kid[ev.k].fd[i] = e[1] } /\ fds' = Set(ev.fds) /\ kid' = [kid EXCEPT ![ev.k] = K0]
Env == IsEvent("env") /\ fds' = Set(ev.fds) /\ UNCHANGED kid
TNext == Start \/ Open \/ Info \/ Say \/ EofIn \/ Exit \/ Close \/ Env \/ (Done /\ UNCHANGED pv)
=============================================================================
