------------------------------ MODULE IniTrace ------------------------------
EXTENDS Ini, TraceIO
VARIABLE ls
Same == UNCHANGED ls
ValOK(i) == /\ IF i = -1 THEN ev.null = 1 /\ ev.sz = 0
               ELSE /\ ev.null = 0 /\ ev.v = Value(ls, i, ev.k) /\ ev.sz = Len(ev.v) /\ (Len(ls[i + 1]) > 0 => ev.in = i)
TNext ==
  \/ IsEvent("S") /\ ls' = ev.ls
  \/ IsEvent("sect") /\ <<ev.st, ev.ct>> = Section(ls, ev.n, 0) /\ Same
  \/ IsEvent("next") /\ <<ev.st, ev.ct>> = Section(ls, ev.n, ev.pst + ev.pct) /\ Same
  \/ IsEvent("full") /\ ev.st = 0 /\ ev.ct = Len(ls) /\ Same
  \/ IsEvent("count") /\ CountOK(ls, ev.r) /\ Same
  \/ IsEvent("val") /\ ValOK(KeyLine(ls, ev.st, ev.ct, ev.k, 0)) /\ Same
  \/ IsEvent("valat") /\ LET i == KeyLine(ls, ev.st, ev.ct, ev.k, ev.off) IN ev.r = i /\ ValOK(i) /\ Same
  \/ Done /\ Same
TInit == TraceInit /\ ls = <<>>
=============================================================================
