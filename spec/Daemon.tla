------------------------------- MODULE Daemon -------------------------------
(* Processes with a session, a controlling terminal and a descriptor table. *)
(* daemonize as the implementation does it, for every initial table (any    *)
(* subset of 0..MaxFd open, any of them the terminal) and fork outcome.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFd
VARIABLES init, ff, tab, par, sid, tty, pc, at, told
vars == <<init, ff, tab, par, sid, tty, pc, at, told>>
Fds == 0..MaxFd
MCInit == /\ init \in SUBSET Fds /\ ff \in BOOLEAN /\ tab = [f \in Fds |-> IF f \in init THEN "x" ELSE "-"]
          /\ par = "run" /\ sid = "old" /\ tty = TRUE /\ pc = "fork" /\ at = MaxFd /\ told = FALSE
          /\ PrintT("@S" \o ToJson(<<[f \in 1..MaxFd + 1 |-> IF f - 1 \in init THEN 1 ELSE 0], IF ff THEN 1 ELSE 0>>))
S == UNCHANGED <<init, ff>>
Fork == /\ pc = "fork" /\ S /\ UNCHANGED <<tab, sid, tty, at>>
        /\ IF ff THEN par' = "exit1" /\ pc' = "none" /\ told' = TRUE ELSE par' = "exit0" /\ pc' = "setsid" /\ UNCHANGED told
Setsid == pc = "setsid" /\ sid' = "own" /\ tty' = FALSE /\ pc' = "close" /\ S /\ UNCHANGED <<tab, par, at, told>>
CloseOne == pc = "close" /\ tab' = [tab EXCEPT ![at] = "-"] /\ (IF at = 0 THEN pc' = "open" /\ UNCHANGED at ELSE at' = at - 1 /\ UNCHANGED pc) /\ S /\ UNCHANGED <<par, sid, tty, told>>
Lowest == CHOOSE f \in Fds : tab[f] = "-" /\ \A g \in 0..f - 1 : tab[g] # "-"
Next1 == [open |-> "dup1", dup1 |-> "dup2", dup2 |-> "daemon"]
OpenNull == pc \in {"open", "dup1", "dup2"} /\ tab' = [tab EXCEPT ![Lowest] = "null"] /\ pc' = Next1[pc] /\ S /\ UNCHANGED <<par, sid, tty, at, told>>
MCNext == Fork \/ Setsid \/ CloseOne \/ OpenNull
Detached == pc = "daemon" => sid = "own" /\ ~tty /\ tab = [f \in Fds |-> IF f <= 2 THEN "null" ELSE "-"] /\ par = "exit0"
Failed == ff /\ pc = "none" => par = "exit1" /\ told
=============================================================================
