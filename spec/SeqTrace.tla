------------------------------ MODULE SeqTrace -----------------------------
(* Conformance of recorded sequence-container histories (C01, C03, C06).    *)
EXTENDS SeqList, TraceIO
vars == <<items, l, hi>>
\* the projected state logged with the event: count always, contents if full
\* (c: the count by its other name, e: emptiness and the element size)
Post == ev.n = Len(items') /\ ev.c = ev.n /\ ev.e = (IF ev.n = 0 THEN 1 ELSE 0) /\ (ev.full = 0 \/ ev.st = items')
T(op, A) == IsEvent(op) /\ A /\ Post
\* an allocation failed during the call: either it is reported and nothing
\* changed, or the call did without it
Fault(bad, A) == (ev.oom = 1 /\ AddFail(bad, ev.r)) \/ A
TNext ==
  \/ T("S", New(ev.init))
  \/ T("add",  Fault(0, Add(ev.v, ev.r)))
  \/ T("addi", Fault(-1, AddI(ev.v, ev.r)))
  \/ T("addr", AddRange(ev.v, ev.k, ev.m, ev.r))
  \/ T("ins",  Fault(0, Insert(ev.v, ev.p, ev.r)))
  \/ T("set",  Set(ev.v, ev.p, ev.r))
  \/ T("get",  Get(ev.p, ev.r))
  \/ T("last", Last(ev.r))
  \/ T("del",  Delete(ev.p))
  \/ T("delr", DeleteR(ev.p, ev.r))
  \/ T("pop",  Pop(ev.r))
  \/ T("clear", Clear)
  \/ T("dump", UNCHANGED items)
  \/ (Done /\ UNCHANGED items)
TInit == TraceInit /\ SInit
=============================================================================
