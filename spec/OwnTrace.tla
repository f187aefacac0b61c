------------------------------ MODULE OwnTrace ------------------------------
EXTENDS Own, TraceIO
Obs(L) == { ev.live[i] : i \in 1..Len(ev.live) } = L /\ ev.bad = 0
TNext ==
  \/ IsEvent("S") /\ New(ev.it = 1)
  \/ IsEvent("put") /\ (IF ev.r = 1 THEN Put(ev.k, ev.v, ev.old, ev.newkey = 1) ELSE ev.oom = 1 /\ PutFail(ev.k, ev.v)) /\ Obs(live')
  \/ IsEvent("many") /\ ev.r = 1 /\ (IF ev.keyed = 1 THEN Many({ i \in ev.from..ev.to : (i - ev.from) % 2 = 0 }, { i \in ev.from..ev.to : (i - ev.from) % 2 = 1 }) ELSE Many({}, ev.from..ev.to)) /\ Obs(live')
  \/ IsEvent("del") /\ Del(ev.k, ev.v, ev.deep = 1) /\ Obs(live')
  \/ IsEvent("pfree") /\ ProgFree(ev.i) /\ Obs(live')
  \/ IsEvent("clear") /\ Clear(ev.deep = 1) /\ Obs(live')
  \/ IsEvent("drop") /\ Drop(ev.f1 = 1, ev.f2 = 1) /\ Obs(live') /\ ev.int = 0
  \/ IsEvent("ctor") /\ (ev.r = 1 \/ ev.oom = 1) /\ ev.bad = 0 /\ UNCHANGED ovars
  \/ IsEvent("flist") /\ ev.leak = 0 /\ ev.bad = 0 /\ (ev.oom = 0 => ev.r = 0) /\ (ev.r # 0 => ev.r = -1) /\ UNCHANGED ovars
  \/ Done /\ UNCHANGED ovars
TInit == TraceInit /\ OInit
=============================================================================
