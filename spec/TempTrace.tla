------------------------------ MODULE TempTrace -----------------------------
(* C28: what the makers did, as the sequence of mkdir calls with outcomes   *)
(* (0 = created, 17 = name exists, other = error).                          *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
VARIABLES made
TInit == TraceInit /\ made = {}
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
Drop6(s, n) == SubSeq(s, 1, Len(s) - n)
Cand(p, pre) == Len(p) = Len(pre) + 6 /\ SubSeq(p, 1, Len(pre)) = pre /\ \A i \in Len(pre) + 1..Len(p) : Alnum(p[i])
Private(m) == (m % 64) = 0 /\ ((m \div 64) % 8) = 7
\* calls i..j are attempts at prefix pre; all but the last met an existing name
Series(cs, pre) == /\ cs # <<>> /\ \A k \in 1..Len(cs) : Cand(cs[k].p, pre) /\ Private(cs[k].m) /\ (cs[k].e = 17) = (k < Len(cs))
LastOf(cs) == cs[Len(cs)]
Base(p) == LET S == { i \in 1..Len(p) : p[i] = 47 } IN IF S = {} THEN p ELSE SubSeq(p, (CHOOSE i \in S : \A j \in S : j <= i) + 1, Len(p))
Mkd == /\ IsEvent("mkd")
       /\ IF Len(ev.t) < 6 THEN ev.r = 0 /\ ev.calls = <<>> /\ ev.new = <<>> /\ UNCHANGED made
          ELSE /\ Series(ev.calls, Drop6(ev.t, 6))
               /\ IF LastOf(ev.calls).e = 0
                  THEN /\ ev.r = 1 /\ ev.o = LastOf(ev.calls).p /\ (ev.real = 1 => ev.new = <<Base(ev.o)>> /\ Private(ev.mode)) /\ ev.o \notin made /\ made' = made \cup {ev.o}
                  ELSE ev.r = 0 /\ ev.new = <<>> /\ UNCHANGED made
SHM == <<47, 100, 101, 118, 47, 115, 104, 109, 47>>
TMP == <<47, 116, 109, 112, 47>>
Need(p) == Len(SHM) + Len(p) + 7
Mkt == /\ IsEvent("mkt")
       /\ IF ev.n < Need(ev.t) THEN ev.r = 0 /\ ev.calls = <<>> /\ UNCHANGED made
          ELSE LET a == SelectSeq(ev.calls, LAMBDA c : Len(c.p) > 4 /\ c.p[2] = 100)
                   b == SubSeq(ev.calls, Len(a) + 1, Len(ev.calls)) IN
               /\ SubSeq(ev.calls, 1, Len(a)) = a /\ Series(a, SHM \o ev.t)
               /\ (LastOf(a).e = 0) = (b = <<>>)
               /\ (b # <<>> => Series(b, TMP \o ev.t))
               /\ IF LastOf(ev.calls).e = 0 THEN /\ ev.r = Len(LastOf(ev.calls).p) /\ ev.o = LastOf(ev.calls).p /\ ev.o \notin made /\ made' = made \cup {ev.o}
                  ELSE ev.r = 0 /\ UNCHANGED made
TNext == (IsEvent("S") /\ made' = {}) \/ Mkd \/ Mkt \/ (Done /\ UNCHANGED made)
=============================================================================
