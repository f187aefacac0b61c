----------------------------- MODULE StdioTrace ----------------------------
(* ev.add: what arrived in each of the three files during the call.         *)
EXTENDS Stdio, TraceIO
TInit == TraceInit /\ SInit
Only(fd, o) == ev.add = [i \in 1..3 |-> IF i = File(fd) THEN o ELSE <<>>] /\ Arrive(fd, o)
Sent == LET x == ev.add[File(ev.fd)] IN x
TNext ==
  \/ IsEvent("S") /\ SNew(ev.same = 1)
  \/ IsEvent("print") /\ Printed(ev.f, ev.a, Sent) /\ Only(ev.fd, Sent)
  \/ IsEvent("puts") /\ Only(1, Line(ev.s))
  \/ IsEvent("perror") /\ Only(2, Error(ev.s, ev.d))
  \/ IsEvent("sn") /\ ev.over = 0 /\ Bounded(Expand(ev.f, ev.a), ev.n, ev.r, ev.o, ev.nul = 1) /\ ev.add = <<<<>>, <<>>, <<>>>> /\ UNCHANGED svars
  \/ IsEvent("big") /\ ev.add = [i \in 1..3 |-> IF i = File(ev.fd) THEN [k |-> ev.k, rest |-> IF ev.fd = 1 THEN Line(<<>>) ELSE Error(<<>>, ev.d)] ELSE [k |-> 0, rest |-> <<>>]] /\ UNCHANGED svars
  \/ IsEvent("files") /\ ev.c = files /\ UNCHANGED svars
  \/ Done /\ UNCHANGED svars
=============================================================================
