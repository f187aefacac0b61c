------------------------------ MODULE HashTrace -----------------------------
EXTENDS HashList, TraceIO
TNext ==
  \/ (IsEvent("S") /\ New(ev.nb))
  \/ (IsEvent("add") /\ ((ev.oom = 1 /\ AddFail(ev.h, ev.b, ev.r)) \/ Add(ev.h, ev.v, ev.b, ev.r)))
  \/ (IsEvent("get") /\ Get(ev.h, ev.b, ev.vs))
  \/ (IsEvent("bdel") /\ DelIn(ev.b, ev.i))
  \/ (IsEvent("iter") /\ Iterate(ev.vs, ev.again))
  \/ (IsEvent("buck") /\ ev.again = 0 /\ Buckets(ev.bs))
  \/ (Done /\ UNCHANGED hvars)
TInit == TraceInit /\ HInit
=============================================================================
