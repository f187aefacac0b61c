------------------------------ MODULE NumTrace ------------------------------
EXTENDS Num, TraceIO
\* C20: the text of a number, and back
Nts == IF ev.b % 2 = 1 \/ ev.b > 62 THEN ev.null = 1
       ELSE LET ds == NumText(ev.w, ev.b, ev.sg = 1, ev.low = 1 /\ ev.b <= 36, IF ev.pad = 1 THEN ev.ml ELSE 0)
                digs == Len(ds) - (IF ev.sg = 1 /\ IsNeg64(ev.w) THEN 1 ELSE 0) IN
            ev.null = 0 /\ ev.in = 1 /\ (ev.ml = 0 \/ digs <= ev.ml => ev.o = ds)
Conv == LET w == IF ev.w32 = 0 THEN ev.w ELSE IF ev.sg = 1 THEN Sext32(ev.w) ELSE Low32(ev.w) IN
        /\ ev.null = 0 /\ ev.in = 1 /\ ev.o = NumText(w, 10, ev.sg = 1, FALSE, 0)
        /\ Parse(ev.o) = w
TNext ==
  \/ IsEvent("S")
  \/ IsEvent("nts") /\ Nts
  \/ IsEvent("conv") /\ Conv
  \/ IsEvent("nullb") /\ ev.ok = 1
  \/ IsEvent("pi") /\ (IF ev.s = <<>> THEN ev.r = Zero4 ELSE ev.r = Parse(ev.s))
  \/ IsEvent("pl") /\ (IF ev.s = <<>> THEN ev.r = Zero4 ELSE ev.r = Parse(ev.s))
  \/ Done
TInit == TraceInit
=============================================================================
