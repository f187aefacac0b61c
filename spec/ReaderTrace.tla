----------------------------- MODULE ReaderTrace ----------------------------
EXTENDS LineReader, TraceIO
B(x) == x = 1
\* reading standard input: one line per call with its newline (without, if chomp)
StdLines(c, chomp) == LET ls == Lines(c) IN
   [i \in 1..Len(ls) |-> IF chomp \/ (i = Len(ls) /\ c[Len(c)] # 10) THEN ls[i] ELSE ls[i] \o <<10>>]
MinN(a, b) == IF a < b THEN a ELSE b
TNext ==
  \/ IsEvent("S") /\ lines' = <<>> /\ next' = 0 /\ open' = FALSE
  \/ IsEvent("pnew") /\ ((ev.r = 0 /\ ev.fds = 1 /\ Open(ev.c)) \/ (B(ev.err) /\ ev.r # 0 /\ ev.fds = 0 /\ open' = FALSE /\ UNCHANGED <<lines, next>>))
  \/ IsEvent("pnone") /\ ev.r = 2 /\ ev.fds = 0 /\ Same
  \/ IsEvent("rl") /\ ev.nul = 1 /\ ev.g = 0 /\ ev.fds = 0 /\ ReadLine(ev.b, ev.r, ev.s, B(ev.err))
  \/ IsEvent("nl") /\ ev.fds = 0 /\ NextLength(ev.r, B(ev.err))
  \/ IsEvent("pclose") /\ ev.r = 0 /\ ev.fds = -1 /\ Close
  \/ IsEvent("stdin") /\ Same /\ LET w == StdLines(ev.c, B(ev.chomp)) k == MinN(Len(w), ev.cnt) IN
       ev.ps = SubSeq(w, 1, k) /\ ev.nulls = ev.cnt - k /\ ev.after = 0 /\ ev.nul = 1
  \/ Done /\ Same
TInit == TraceInit /\ RInit
=============================================================================
