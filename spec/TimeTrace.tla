------------------------------ MODULE TimeTrace -----------------------------
(* C30: recorded sleeps (with every request to the kernel and how much of   *)
(* it was slept), differences and texts.                                    *)
EXTENDS Time, TraceIO
TInit == TraceInit
Z3 == <<0, 0, 0>>
\* calls: [q: digits requested, s: digits slept, e: 0 done, 4 interrupted, else error]
Sleep == /\ IsEvent("sleep")
         /\ LET want == IF ev.u = "ms" THEN Mul6(ev.n) ELSE Mul3(ev.n)
                got == Sum3([i \in 1..Len(ev.calls) |-> ev.calls[i].s])
                last == IF ev.calls = <<>> THEN [q |-> Z3, s |-> Z3, e |-> 0] ELSE ev.calls[Len(ev.calls)] IN
            IF ev.r = 0 THEN ev.neg = 0 /\ got = want /\ (\A i \in 1..Len(ev.calls) : ev.calls[i].e \in {0, 4})
            ELSE ev.r = -1 /\ last.e \notin {0, 4}
\* K whole seconds further apart
K == <<0, ev.kh \div 1000, (ev.kh % 1000) * 1000000 + ev.kl>>
More(x, k) == IF k = Z3 THEN x ELSE [neg |-> x.neg, d |-> Add3(x.d, k)]
Passed == /\ IsEvent("passed") /\ [neg |-> ev.neg, d |-> ev.d] \in { More(x, Mul3(K)) : x \in DiffMs(ev.as, ev.au, ev.bs, ev.bu) }
Tdiff == /\ IsEvent("tdiff") /\ [neg |-> ev.neg, d |-> ev.d] = More(DiffNs(ev.as, ev.an, ev.bs, ev.bn), <<K[2], K[3], 0>>)
\* hi * 10^6 + lo seconds
\* (before 1970: s seconds and us microseconds less than nothing)
UtimeNeg == /\ ev.neg = 1 /\ LET t == (0 - 1 - ev.lo - ev.hi * 1000000)  us == 1000000 - ev.us IN     \* -(seconds) - 1, and the rest of the second
               ev.d = LET a == (t % 1000) * 1000000 + us IN <<0, (t \div 1000) + (a \div G), a % G>>
UtimePos == ev.neg = 0 /\ ev.d = LET a == (ev.lo % 1000) * 1000000 + ev.us IN <<ev.hi \div 1000000, (ev.hi % 1000000) * 1000 + ev.lo \div 1000, a>>
Utime == IsEvent("utime") /\ (IF ev.hi < 0 THEN UtimeNeg ELSE UtimePos)
Stamp == /\ IsEvent("stamp") /\ ev.rh = ev.hi /\ ev.rl = ev.lo /\ ev.ru = ev.us
Text2 == /\ IsEvent("text")
         /\ LET t == Text(ev.hi, ev.lo, ev.off) IN
            IF ev.n > Len(t) THEN ev.out = t /\ ev.r = Len(t)
            ELSE ev.out = SubSeq(t, 1, Len(ev.out)) /\ Len(ev.out) < (IF ev.n = 0 THEN 1 ELSE ev.n)
\* with the real clock and real interrupting signals: microseconds
Real == IsEvent("real") /\ ev.r = 0 /\ ev.el >= ev.want
TNext == IsEvent("S") \/ Sleep \/ Passed \/ Tdiff \/ Utime \/ Stamp \/ Text2 \/ Real \/ Done
=============================================================================
