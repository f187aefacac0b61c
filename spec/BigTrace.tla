------------------------------ MODULE BigTrace ------------------------------
EXTENDS BigStr, TraceIO
TInit == TraceInit
L == BLen(ev.n, ev.t)
Pos(p) == <<p.at, p.len>>
SplitOk(ps) == /\ Len(ev.ps) = Len(ps)
               /\ \A i \in 1..Len(ps) : ev.ps[i].at = ps[i].at /\ ev.ps[i].len = ps[i].len /\ ev.ps[i].nul = 1
ShiftOk(cut) == IF PLe(ev.k, L) THEN ev.r = 1 /\ ev.len = PMinus(L, ev.k) /\ ev.at = (IF cut THEN <<0, 0>> ELSE ev.k) /\ ev.nul = 1
                ELSE ev.r = 0 /\ ev.len = L /\ ev.at = <<0, 0>>
ReplTail == BReplTail(ev.f, ev.t, ev.d, ev.w, 64)
Chop == StripEnd(ev.t, {10, 13})
Multiple(k) == LET x == (ev.n[2] \div 4096) * k IN Norm(ev.n[1] * k + x \div 4096, (x % 4096) * 4096 + (ev.n[2] % 4096) * k)
\* a sorted list of the c even numbers 0, 2, ...; a search, or an insertion that is taken back
MStep(c, p) ==
  /\ p.m = c /\ p.last = 2 * (c - 1)
  /\ IF p.o = "s" THEN p.r = (IF p.k % 2 = 0 /\ p.k >= 0 /\ p.k < 2 * c THEN p.k \div 2 ELSE -1)
     ELSE LET pos == IF p.o = "p" THEN p.k ELSE IF p.k >= 2 * c THEN c ELSE (p.k + 1) \div 2
          IN  /\ p.r = pos /\ p.n = c + 1
              /\ p.y = (IF p.o = "p" THEN -9 ELSE p.k)
              /\ p.x = (IF pos = 0 THEN -1 ELSE 2 * (pos - 1)) /\ p.z = (IF pos = c THEN -1 ELSE 2 * pos)
TNext ==
  \/ IsEvent("S")
  \/ IsEvent("blist") /\ Len(ev.ps) = ev.c + 1 /\ \A i \in 1..ev.c + 1 : ev.ps[i].null = (IF i = ev.c + 1 THEN 1 ELSE 0) /\ (i <= ev.c => ev.ps[i].at = Multiple(i - 1))
  \/ IsEvent("mlist") /\ \A i \in 1..Len(ev.ps) : MStep(ev.c, ev.ps[i])
  \/ IsEvent("eq") /\ ev.r = (IF BEq(ev.f, ev.n, ev.t, ev.n2, ev.t2) THEN 1 ELSE 0)
  \* the needle starts at p, inside of the fill
  \/ IsEvent("here") /\ ev.r = (IF PLe(BLen(ev.n2, ev.t2), PMinus(L, ev.p)) /\ PLe(ev.n2, PMinus(ev.n, ev.p))
                                   /\ (LET g == PMinus(PMinus(ev.n, ev.p), ev.n2) IN g[1] = 0 /\ g[2] < 64 /\ SubSeq(Rep(ev.f, g[2]) \o ev.t, 1, Len(ev.t2)) = ev.t2) THEN 1 ELSE 0)
  \/ IsEvent("contains") /\ ev.r = (IF BContains(ev.f, ev.t, ev.d) THEN 1 ELSE 0)
  \/ IsEvent("rchr") /\ LET x == BLast(ev.f, ev.n, ev.t, ev.c) IN IF x = <<>> THEN ev.null = 1 ELSE ev.null = 0 /\ ev.r = x
  \/ IsEvent("shl") /\ ShiftOk(TRUE)
  \/ IsEvent("shr") /\ ShiftOk(FALSE)
  \/ IsEvent("chomp") /\ ev.r = Len(ev.t) - Len(Chop) /\ ev.len = BLen(ev.n, Chop) /\ ev.at = 0
  \/ (IsEvent("splitc") \/ IsEvent("splits")) /\ SplitOk(BSplit(ev.f, ev.n, ev.t, ev.d))
  \/ IsEvent("repl") /\ ev.null = 0 /\ ev.len = PMinus(PAdd(ev.n, Len(ReplTail)), <<0, 64>>) /\ ev.o = EndOf(ReplTail, 32) \o <<0>>
  \/ IsEvent("concat") /\ ev.null = 0 /\ ev.len = PAdd(L, Len(ev.d) + Len(ev.w)) /\ ev.o = EndOf(Rep(ev.f, 64) \o ev.t \o ev.w, 32) \o <<0>>
  \/ IsEvent("copy") /\ ev.null = 0 /\ ev.len = L /\ ev.o = LastB(ev.f, ev.t, 32) \o <<0>>
  \/ IsEvent("load") /\ ev.null = 0 /\ ev.len = L /\ ev.o = LastB(ev.f, ev.t, 32) \o <<0>>
  \/ IsEvent("save") /\ ev.r = L /\ ev.sum = L /\ ev.ok = 1
  \/ IsEvent("fromchar") /\ ev.len = L
  \/ IsEvent("enc") /\ ev.o = BEncTail(ev.f, ev.n, ev.t) \o <<0>>
  \/ IsEvent("encs") /\ ev.x >= 0 /\ ev.r = 1 /\ ev.o = BEncTail(ev.f, ev.n, ev.t) \o <<0>>
  \/ IsEvent("dec") /\ ev.r = BDecLen(ev.n, ev.t) /\ ev.o = BDecTail(ev.f, ev.t) \o <<0>>
  \/ IsEvent("r2h") /\ ev.o = BHexTail(ev.f, ev.t) \o <<0>>
  \/ IsEvent("h2r") /\ ev.r = PHalf(PAdd(L, 1)) /\ ev.o = BHexDecTail(ev.f, ev.t)
  \/ Done
=============================================================================
