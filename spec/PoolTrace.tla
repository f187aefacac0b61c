------------------------------ MODULE PoolTrace -----------------------------
EXTENDS Pool, TraceIO
TNext ==
  \/ (IsEvent("S") /\ New(ev.n, ev.es, ev.ps))
  \/ (IsEvent("alloc") /\ Alloc(ev.size, ev.off, ev.v))
  \/ (IsEvent("free") /\ Free(ev.off))
  \/ (IsEvent("read") /\ Contents(ev.offs, ev.vs))
  \/ (Done /\ UNCHANGED pvars)
TInit == TraceInit /\ PInit
=============================================================================
