----------------------------- MODULE SortedTrace ---------------------------
EXTENDS Sorted, TraceIO
Post == ev.n = Len(items') /\ (ev.full = 0 \/ ev.st = items')
Cfg == UNCHANGED <<kd, ordr>>
\* argbad: comparator calls with wrong argument order, unknown items or a wrong context
T(op, A) == IsEvent(op) /\ A /\ Post /\ Cfg
\* fill: items a, a + step, ... appended in order
AddRangeStep == ev.r = ev.k /\ items' = items \o [i \in 1..ev.k |-> ev.v + (i - 1) * ev.step]
\* mix: the numbers v .. v + k - 1 appended in the order of the multiples of mu modulo k
MixStep == ev.r = ev.k /\ items' = items \o [i \in 1..ev.k |-> ev.v + (((i - 1) * ev.mu) % ev.k)]
TNext ==
  \/ (IsEvent("S") /\ New(<<>>) /\ kd' = ev.kd /\ ordr' = ev.ord)
  \/ T("fill", AddRangeStep)
  \/ T("mix",  MixStep)
  \/ T("add",  Add(ev.v, ev.r))
  \/ (l <= hi /\ ev.op \in {"add", "sins"} /\ T(ev.op, ev.oom = 1 /\ AddFail(IF ev.op = "add" THEN 0 ELSE -1, ev.r)))
  \/ T("sins", ev.argbad = 0 /\ InsertSorted(ev.v, ev.r))
  \/ T("srch", ev.argbad = 0 /\ BSearch(ev.v, ev.r))
  \/ T("del",  Delete(ev.p))
  \/ (IsEvent("sort") /\ Sort(ev.st) /\ ev.n = N /\ Cfg)
  \/ (Done /\ UNCHANGED <<items, kd, ordr>>)
TInit == TraceInit /\ SInit /\ kd = 1 /\ ordr = 0
=============================================================================
