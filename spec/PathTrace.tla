------------------------------ MODULE PathTrace -----------------------------
EXTENDS Path, TraceIO
CONSTANT PathMax
VARIABLE files          \* name -> [n: size, t: modification time] (16-bit limbs)
Same == UNCHANGED files
Zero == <<0, 0, 0, 0>>
Set(f, v) == [x \in DOMAIN files \cup {f} |-> IF x = f THEN v ELSE files[x]]
NormOK == LET w == Norm(ev.s) IN
   /\ ev.kept = 1 /\ ev.in = 1 /\ ev.nul = 1
   /\ IF w = FAIL THEN ev.r = 0 /\ ev.rc = 0
      ELSE /\ ev.rc = 1 /\ ev.oc = w
           /\ (IF Len(ev.s) < PathMax THEN ev.r = 1 /\ ev.o = w ELSE (ev.r = 0 \/ (ev.r = 1 /\ ev.o = w)))
           /\ Norm(w) = w
Limit == Len(ev.s) >= PathMax \/ Len(ev.t) >= PathMax
\* s2, t2: the arguments after a successful call
DiffOK == /\ (ev.r >= 0 => ev.s2 = Norm(ev.s) /\ ev.t2 = Norm(ev.t)) /\ LET w == Diff(ev.s, ev.t) IN ev.nul = 1 /\ (IF w = FAIL THEN ev.r = -1 ELSE (ev.r = Len(w) /\ ev.o = w) \/ (Limit /\ ev.r = -1))
TNext ==
  \/ IsEvent("S") /\ files' = [x \in {} |-> 0]
  \/ IsEvent("norm") /\ NormOK /\ Same
  \/ IsEvent("diff") /\ DiffOK /\ Same
  \/ IsEvent("ext") /\ ev.r = After(ev.s, DOT) /\ Same
  \/ IsEvent("fname") /\ ev.r = After(ev.s, SL) /\ Same
  \/ IsEvent("mkfile") /\ files' = Set(ev.f, [n |-> ev.n, t |-> ev.t])
  \/ IsEvent("link") /\ files' = (IF ev.f \in DOMAIN files THEN Set(ev.g, files[ev.f]) ELSE files)
  \/ IsEvent("rmfile") /\ files' = [x \in DOMAIN files \ {ev.f} |-> files[x]]
  \/ IsEvent("size") /\ ev.r = (IF ev.f \in DOMAIN files THEN files[ev.f].n ELSE Zero) /\ Same
  \/ IsEvent("mtime") /\ ev.r = (IF ev.f \in DOMAIN files THEN files[ev.f].t ELSE Zero) /\ Same
  \/ Done /\ Same
TInit == TraceInit /\ files = [x \in {} |-> 0]
=============================================================================
