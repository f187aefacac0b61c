------------------------------ MODULE StrTrace ------------------------------
(* Recorded string operations against Strings.  A call during which an      *)
(* allocation failed must report it and change nothing (C08); with CheckMem *)
(* every call leaves no block behind and frees nothing it does not own (C09)*)
EXTENDS Strings, TraceIO
CONSTANTS CheckMem
Mem(d) == ~CheckMem \/ (ev.leak = d /\ ev.bad = 0)
Oom == ev.oom = 1
Fail0 == ev.null = 1 /\ Keep
Pure(P) == P /\ Keep
(* lists of e.n entries e.a with e.b at index e.k (none if e.k >= e.n), too *)
(* long to be written out: FirstEq, KvFirst and ListDup restated on them    *)
Many(e) ==
  LET fst(x) == IF e.a = e.b THEN (IF e.n > 0 THEN 0 ELSE -1)
                ELSE IF x = e.b THEN (IF e.k < e.n THEN e.k ELSE -1)
                ELSE IF e.n > 1 \/ (e.n = 1 /\ e.k # 0) THEN (IF e.k = 0 THEN 1 ELSE 0) ELSE -1
      run(x, n) == IF n > 0 THEN << [s |-> x, n |-> n] >> ELSE <<>>
      found(x, r, c, f, v) == r = fst(x) /\ c = (IF r = -1 THEN 0 ELSE 1) /\ f = c /\ v = (IF r = -1 THEN -77 ELSE r)
  IN /\ found(e.a, e.la, e.ca, e.fa, e.va) /\ found(e.b, e.lb, e.cb, e.fb, e.vb)
     /\ e.dup = -1 /\ e.fresh = e.n
     /\ e.runs = (IF e.a = e.b \/ e.k >= e.n THEN run(e.a, e.n) ELSE run(e.a, e.k) \o run(e.b, 1) \o run(e.a, e.n - e.k - 1))
     /\ e.same = 1 /\ e.it = e.n /\ e.at = (IF e.k < e.n THEN e.k ELSE e.n)
(* the strings drv/strs.c makes from literals and arrays: the whole array   *)
(* without its last byte, or, from a pointer, up to its terminator         *)
Literals == << <<>>, <<97>>, <<108, 105, 116, 0, 101, 114, 97, 108>>, <<97, 114, 0, 114, 97, 121>>, <<105, 110, 0, 105, 116>>, <<>>, <<255, 10>>,
               <<114>>, <<100, 101, 99, 108, 97, 114, 101, 100>> >>
TNext ==
  \/ IsEvent("S") /\ SNew
  \/ /\ (IsEvent("splitc") \/ IsEvent("splits")) /\ Mem(0)
     /\ \/ Oom /\ Fail0
        \/ ev.null = 0 /\ IsSplit(ev.s, ev.d, ev.ps, ev.at) /\ ev.nul = 1 /\ Keep
  \/ IsEvent("repl") /\ Mem(0) /\ ((Oom /\ Fail0) \/ (ev.null = 0 /\ ev.r = Replace(ev.s, ev.d, ev.w) /\ ev.rnul = 1 /\ Keep))
  \/ IsEvent("concat") /\ Mem(0) /\ ((Oom /\ Fail0) \/ (ev.null = 0 /\ ev.r = Concat(ev.ps) /\ ev.rnul = 1 /\ Keep))
  \/ IsEvent("tostr") /\ Mem(0) /\ ((Oom /\ Fail0) \/ (ev.null = 0 /\ ev.r = Terminated(list, <<LF>>) /\ ev.rnul = 1 /\ Keep))
  \/ IsEvent("tostrdos") /\ Mem(0) /\ ((Oom /\ Fail0) \/ (ev.null = 0 /\ ev.r = Terminated(list, <<CR, LF>>) /\ ev.rnul = 1 /\ Keep))
  \/ IsEvent("eq") /\ ev.r = (IF ev.s = ev.d THEN 1 ELSE 0) /\ Keep
  \/ IsEvent("contains") /\ ev.r = (IF Contains(ev.s, ev.d) THEN 1 ELSE 0) /\ Keep
  \/ IsEvent("here") /\ ev.r = (IF Here(ev.s, ev.p, ev.d) THEN 1 ELSE 0) /\ Keep
  \/ IsEvent("rchr") /\ ev.r = LastIdx(ev.s, ev.c) /\ Keep
  \/ IsEvent("hash") /\ Hash(ev.s, ev.h)
  \/ IsEvent("copy") /\ Mem(0) /\ ((Oom /\ Fail0) \/ (ev.null = 0 /\ ev.r = ev.s /\ ev.rnul = 1 /\ Keep))
  \/ IsEvent("dup") /\ Mem(0) /\ ((Oom /\ Fail0) \/ (ev.null = 0 /\ ev.r = ev.s /\ ev.rnul = 1 /\ Keep))
  \/ IsEvent("dupn") /\ Mem(0) /\ (((Oom \/ ev.n = 0) /\ Fail0) \/ (ev.n > 0 /\ ev.null = 0 /\ ev.r = SubSeq(ev.s, 1, ev.n) /\ ev.rnul = 1 /\ Keep))
  \/ IsEvent("fmt") /\ Mem(0) /\ ((Oom /\ Fail0) \/ (ev.null = 0 /\ ev.r = CStr(ev.s) /\ ev.rnul = 1 /\ Keep))
  \/ IsEvent("fromchar") /\ ev.same = 1 /\ ev.n = CLen(ev.s) /\ Keep
  \/ IsEvent("new") /\ Mem(0) /\ ((Oom /\ Fail0) \/ (ev.null = 0 /\ ev.size = ev.n /\ ev.nul = 1 /\ ev.own = 1 /\ ev.keeps = 1 /\ ev.gone = 1 /\ Keep))
  \/ /\ IsEvent("acc") /\ LET n == Len(ev.s) b(x) == IF x THEN 1 ELSE 0 IN
        /\ ev.n = <<n, n, n, n, n, n, n>> /\ ev.g = <<1, 1, 1, 1, 1>>
        /\ \A i \in 1..6 : ev.e[i] = b(n = 0)
        /\ ev.z = <<1, 1, 1, 1, 1, 1, 1>>
     /\ Keep
  \/ IsEvent("lit") /\ ev.ps = Literals /\ ev.at = 1 /\ Keep
  \/ /\ IsEvent("cmp") /\ LET b(x) == IF x THEN 1 ELSE 0 m == b(SubSeq(ev.s, 1, ev.n) = SubSeq(ev.d, 1, ev.n)) t == b(CStr(ev.s) = CStr(ev.d)) IN
        ev.m = m /\ ev.m2 = m /\ ev.t = t /\ ev.t2 = t /\ ev.l = 1
     /\ Keep
  \/ IsEvent("vset") /\ SetView(ev.s)
  \/ IsEvent("shl") /\ ShiftLeft(ev.n, ev.r, ev.v, ev.at) /\ ev.vnul = 1
  \/ IsEvent("shr") /\ ShiftRight(ev.n, ev.r, ev.v, ev.at)
  \/ IsEvent("chomp") /\ Chomp(ev.r, ev.v, ev.at)
  \/ IsEvent("ladd") /\ ((Oom /\ ev.r = 0 /\ Mem(0) /\ Keep) \/ (ev.r = 1 /\ ListAdd(ev.s, FALSE)))
  \/ IsEvent("ladddup") /\ ((Oom /\ ev.r = 0 /\ Mem(0) /\ Keep) \/ (ev.r = 1 /\ ListAdd(ev.s, TRUE)))
  \/ IsEvent("lset") /\ ListSet(ev.i, ev.s, ev.r)
  \/ IsEvent("lins") /\ ((Oom /\ ev.r = 0 /\ Mem(0) /\ Keep) \/ (~Oom /\ ListInsert(ev.i, ev.s, ev.r)))
  \/ IsEvent("linss") /\ ((Oom /\ ev.r = -1 /\ Mem(0) /\ Keep) \/ (~Oom /\ SortedInsert(ev.s, ev.r)))
  \/ /\ IsEvent("lempty") /\ ev.n = <<Len(list), Len(kv), Len(ptrs), Len(strs), Len(list)>>
     /\ LET e == IF list = <<>> THEN 1 ELSE 0 IN ev.e = <<e, e, IF list = <<>> THEN 1 ELSE 0>>
     /\ Keep
  \/ IsEvent("lget") /\ ev.null = (IF ev.i < Len(list) THEN 0 ELSE 1) /\ (ev.i < Len(list) => ev.s = list[ev.i + 1]) /\ Keep
  \/ IsEvent("ldump") /\ ev.ps = list /\ Keep
  \/ IsEvent("lfind") /\ ev.r = FirstEq(list, ev.s) /\ ev.c = (IF ev.r = -1 THEN 0 ELSE 1) /\ Keep
  \/ /\ IsEvent("ldup") /\ ev.ps = list /\ ev.nul = 1
     /\ IF Oom THEN ev.r \in 0..Len(list) - 1 ELSE ev.r = -1
     /\ LET n == IF Oom THEN ev.r ELSE Len(list) IN /\ \A i \in 1..n : ev.heap[i] = 1
                                                    /\ Mem(n) /\ ListDup(n)
  \/ IsEvent("lfreestr") /\ ev.n = Len(list) /\ ev.z = 1 /\ Mem(-Cardinality({ i \in 1..Len(heap) : heap[i] })) /\ ListClearStrings
  \/ (IsEvent("lfreeall") \/ IsEvent("lfree")) /\ (~CheckMem \/ ev.bad = 0) /\ ListNew
  \/ IsEvent("kadd") /\ ((Oom /\ ev.r = 0 /\ Mem(0) /\ Keep) \/ (ev.r = 1 /\ KvAdd(ev.s, ev.v)))
  \/ IsEvent("kset") /\ KvSet(ev.i, ev.s, ev.v, ev.r)
  \/ IsEvent("kget") /\ ev.n = Len(kv) /\ ev.null = (IF ev.i < Len(kv) THEN 0 ELSE 1) /\ (ev.i < Len(kv) => <<ev.s, ev.v>> = kv[ev.i + 1]) /\ Keep
  \/ IsEvent("kfind") /\ LET i == KvFirst(ev.s) IN ev.r = (IF i = 0 THEN 0 ELSE 1) /\ ev.v = (IF i = 0 THEN -77 ELSE kv[i][2]) /\ Keep
  \/ IsEvent("many") /\ Many(ev) /\ Keep
  \/ IsEvent("padd") /\ ((Oom /\ ev.r = 0 /\ Mem(0) /\ Keep) \/ (ev.r = 1 /\ PtrAdd(ev.v)))
  \/ IsEvent("pset") /\ PtrSet(ev.i, ev.v, ev.r)
  \/ IsEvent("pall") /\ ev.vs = ptrs /\ Keep
  \/ IsEvent("tadd") /\ ((Oom /\ ev.r = 0 /\ Mem(0) /\ Keep) \/ (ev.r = 1 /\ StrAdd(ev.s)))
  \/ IsEvent("tadddup") /\ ((Oom /\ ev.r = 0 /\ Mem(0) /\ Keep) \/ (ev.r = 1 /\ StrAdd(ev.s)))
  \/ IsEvent("tget") /\ ev.null = (IF ev.i < Len(strs) THEN 0 ELSE 1) /\ (ev.i < Len(strs) => ev.s = strs[ev.i + 1]) /\ Keep
  \/ IsEvent("tdel") /\ StrDel(ev.i)
  \/ IsEvent("tall") /\ ev.ps = strs /\ ev.n = Len(strs) /\ Keep
  \/ Done /\ Keep
TInit == TraceInit /\ SInit
=============================================================================
