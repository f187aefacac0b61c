----------------------------- MODULE SearchTrace ----------------------------
EXTENDS Search, TraceIO
TInit == TraceInit
\* the switch-case lists.  sw: exact sets.  sp: printable sets, which may leave out characters but not catch unsafe ones:
\* a C string literal takes neither quote nor backslash unescaped, a double-quoted shell string neither quote, $, ` nor backslash
Math(c) == c \in {42, 47, 43, 45, 37, 61}
Graph(c) == c \in 32..126
AlNum(c) == Up(c) \/ Lo(c) \/ Dg(c)
CSafe(c) == Graph(c) /\ c \notin {34, 92}
ShSafe(c) == Graph(c) /\ c \notin {34, 36, 96, 92}
Lists(c, sw, sp) ==
  LET is(x) == IF x THEN 1 ELSE 0 IN
  /\ sw = <<is(Up(c)), is(Lo(c)), is(Up(c) \/ Lo(c)), is(Dg(c)), is(AlNum(c)), is(Math(c))>>
  /\ (sp[1] = 1 => CSafe(c) /\ ~AlNum(c)) /\ (sp[2] = 1 => ShSafe(c) /\ ~AlNum(c)) /\ (sp[3] = 1 => Graph(c) /\ ~AlNum(c))
  /\ (Math(c) => sp[1] = 1 /\ sp[2] = 1) /\ (sp[1] = 1 \/ sp[2] = 1 => sp[3] = 1) /\ (c \in {34, 39, 63, 92} => sp[3] = 1)
  /\ sp[4] = is(AlNum(c) \/ sp[3] = 1) /\ sp[5] = is(AlNum(c) \/ sp[1] = 1) /\ sp[6] = is(AlNum(c) \/ sp[2] = 1)
B(x) == IF x THEN 1 ELSE 0
TNext ==
  \/ IsEvent("S")
  \/ IsEvent("uc") /\ ev.same = 1 /\ ev.r = (IF ev.nl = 1 THEN -1 ELSE Find(UcEq, ev.h, ev.n))
  \/ IsEvent("star") /\ ev.same = 1 /\ ev.r = (IF ev.nl = 1 THEN -1 ELSE Find(StarEq, ev.h, ev.n))
  \/ IsEvent("word") /\ ev.same = 1 /\ ev.r = FindWord(ev.h, ev.n)
  \/ IsEvent("ends") /\ ev.r = B(Ends(ev.h, ev.n))
  \/ IsEvent("has") /\ ev.r = B(ev.nl = 0 /\ Has(ev.h, ev.c))
  \/ IsEvent("cls") /\ ev.let = B(Up(ev.c) \/ Lo(ev.c)) /\ ev.lo = B(Lo(ev.c)) /\ ev.up = B(Up(ev.c)) /\ ev.num = B(Dg(ev.c))
                    /\ ev.alpha = B(Up(ev.c) \/ Lo(ev.c) \/ Dg(ev.c)) /\ ev.ml = ToLo(ev.c) /\ ev.mu = ToUp(ev.c) /\ ev.near = 1 /\ Lists(ev.c, ev.sw, ev.sp)
  \/ Done
=============================================================================
