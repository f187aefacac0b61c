----------------------------- MODULE LoggerTrace ----------------------------
(* C31: per call what arrived on each of the open descriptors.              *)
EXTENDS Logger, TraceIO
TInit == TraceInit
\* `text` on the descriptor of the call, nothing on the others
Only(text) == \A i \in 1..Len(ev.out) : ev.out[i] = (IF i = ev.fd THEN text ELSE <<>>)
Put == IsEvent("put") /\ Only(PutText(ev.a))
Puts == IsEvent("puts") /\ Only(Render(ev.a[1]))
Putd == IsEvent("putd") /\ Only(NumText(ev.w, 10, ev.sg = 1, FALSE, 0))
Putln == IsEvent("putln") /\ Only(NL)
Space == IsEvent("space") /\ Only(<<32>>)
Error == IsEvent("error") /\ Only(ErrorText(ev.a[1].s, ev.a[1].null, ev.descr))
Stamp == IsEvent("stamp") /\ Only(Text(ev.hi, ev.lo, 0))
PrintAll == IsEvent("printall") /\ Only(Lines(ev.a))
\* a text of k repetitions of a piece
BigEnd == IF ev.kind \in {"puts", "putc"} THEN <<>> ELSE IF ev.kind \in {"put", "putv", "putm"} THEN NL ELSE ErrorText(<<>>, 0, ev.descr)
Big == IsEvent("big") /\ \A i \in 1..Len(ev.out) : ev.out[i] = (IF i = ev.fd THEN [k |-> ev.k, rest |-> BigEnd] ELSE [k |-> 0, rest |-> <<>>])
TNext == IsEvent("S") \/ Put \/ Puts \/ Putd \/ Putln \/ Space \/ Error \/ Stamp \/ PrintAll \/ Big \/ Done
=============================================================================
