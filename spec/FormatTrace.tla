----------------------------- MODULE FormatTrace ----------------------------
EXTENDS Format, TraceIO
B(x) == x = 1
Over == ev.over = 0          \* bytes around the destination are untouched
TNext ==
  \/ IsEvent("S")
  \/ IsEvent("sn") /\ Over /\ Bounded(Expand(ev.f, ev.a), ev.n, ev.r, ev.o, B(ev.nul))
  \/ IsEvent("fd") /\ Emitted(Expand(ev.f, ev.a), 4095, ev.o)
  \/ IsEvent("sp") /\ LET x == Expand(ev.f, ev.a) IN
        (IF x[1] = "ok" THEN ev.null = 0 /\ ev.nul = 1 ELSE x[1] = "any" \/ ev.null = 1) /\ Emitted(x, 999, ev.o)
  \/ Done
TInit == TraceInit
=============================================================================
