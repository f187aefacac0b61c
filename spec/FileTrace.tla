------------------------------ MODULE FileTrace -----------------------------
EXTENDS FileIO, TraceIO
B(x) == x = 1
Fault == B(ev.err) \/ B(ev.oom)
NoFd == ev.fds = 0
TNext ==
  \/ IsEvent("S") /\ disk' = [x \in {} |-> <<>>] /\ ldisk' = [x \in {} |-> <<>>]
  \/ IsEvent("put") /\ disk' = WithFile(ev.f, ev.c) /\ UNCHANGED ldisk
  \/ IsEvent("lput") /\ ldisk' = WithLFile(ev.f, ev.c) /\ UNCHANGED disk
  \/ IsEvent("save") /\ NoFd /\ Save(ev.f, ev.c, ev.n, ev.r, B(ev.there), ev.disk, Fault)
  \/ IsEvent("load") /\ NoFd /\ ev.nul = 1 /\ Load(ev.f, B(ev.null), ev.r, ev.n, Fault, B(ev.eof))
  \/ IsEvent("lsave") /\ NoFd /\ (ev.r = 1 /\ ev.had = 0 => ev.mode = ev.want) /\ LSave(ev.f, ev.c, ev.r, B(ev.there), ev.disk, Fault \/ B(ev.short))
  \/ IsEvent("lload") /\ NoFd /\ ev.nul = 1 /\ ev.oldok = 1 /\ LLoad(ev.f, ev.r, ev.ps, Fault)
  \/ Done /\ UNCHANGED fvars
TInit == TraceInit /\ FInit
=============================================================================
