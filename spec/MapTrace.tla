------------------------------ MODULE MapTrace ------------------------------
EXTENDS Map, TraceIO
mv == <<m, rev>>
K == UNCHANGED rev
\* contents logged after the step (bmap: in index order; hbmap: in iteration order)
PostB == ev.n = Cardinality(DOMAIN m') /\ (ev.full = 0 \/ OrderedM(m', ev.ks, ev.vs))
PostH == ev.full = 0 \/ OnceM(m', ev.ks, ev.vs)
B(op, A) == IsEvent(op) /\ A /\ PostB /\ K
H(op, A) == IsEvent(op) /\ A /\ PostH /\ K
Rng(k, n, st, v) == [x \in Dom \cup {k + i * st : i \in 0..n - 1} |->
                      IF x >= k /\ (x - k) % st = 0 /\ (x - k) \div st < n THEN v + (x - k) \div st ELSE m[x]]
TNext ==
  \/ (IsEvent("S") /\ ev.meta = 1 /\ Empty /\ rev' = ev.rev)
  \/ B("ins",   (ev.oom = 1 /\ InsertFail(ev.r)) \/ Insert(ev.k, ev.v, ev.r))
  \/ B("insn",  (ev.oom = 1 /\ InsertFail(ev.r)) \/ InsertNoCheck(ev.k, ev.v, ev.r))
  \/ B("insr",  ev.r = ev.cnt /\ m' = Rng(ev.k, ev.cnt, ev.step, ev.v))
  \/ B("find",  Find(ev.k, ev.r))
  \/ B("has",   Contains(ev.k, ev.r))
  \/ B("get",   Get(ev.k, ev.r))
  \/ B("setp",  SetAt(ev.v, ev.p))
  \/ B("delp",  DeleteAt(ev.p))
  \/ B("dump",  UNCHANGED m)
  \/ H("hins",  (ev.oom = 1 /\ ev.ik = NoKey /\ UNCHANGED m) \/ HInsert(ev.k, ev.v, ev.ik, ev.iv))
  \/ H("hinsn", (ev.oom = 1 /\ ev.ik = NoKey /\ UNCHANGED m) \/ (ev.k \notin Dom /\ HInsert(ev.k, ev.v, ev.ik, ev.iv)))
  \/ H("hinsr", ev.r = ev.cnt /\ m' = Rng(ev.k, ev.cnt, ev.step, ev.v))
  \/ H("hfind", HFind(ev.k, ev.ik, ev.iv))
  \/ H("hhas",  Contains(ev.k, ev.r))
  \/ H("hget",  Get(ev.k, ev.r))
  \/ H("hset",  HSet(ev.k, ev.v))
  \/ H("hdel",  HDelete(ev.k))
  \/ H("hdump", UNCHANGED m)
  \/ H("hdelall", Empty)
  \/ (Done /\ UNCHANGED mv)
TInit == TraceInit /\ MInit
=============================================================================
