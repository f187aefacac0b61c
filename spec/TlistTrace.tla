----------------------------- MODULE TlistTrace -----------------------------
(* tlist histories: SeqList plus the identity (address serial) of each item,   *)
(* which must travel with the item.                                            *)
EXTENDS SeqList, TraceIO
VARIABLE addr
Post == /\ ev.n = Len(items')
        /\ (ev.full = 0 \/ (ev.st = items' /\ ev.ad = addr'))
T(op, A, B) == IsEvent(op) /\ A /\ B /\ Post
Same == UNCHANGED addr
TNext ==
  \/ T("S", New(<<>>), addr' = <<>>)
  \/ T("add",  Add(ev.v, ev.r), addr' = Append(addr, ev.id))
  \/ (l <= hi /\ ev.op \in {"add", "ins"} /\ T(ev.op, ev.oom = 1 /\ AddFail(0, ev.r), Same))
  \/ T("addr", AddRange(ev.v, ev.k, ev.m, ev.r), addr' = addr \o [i \in 1..ev.k |-> ev.id + i - 1])
  \/ T("ins",  Insert(ev.v, ev.p, ev.r),
               addr' = (IF ev.p > N THEN addr ELSE InsertAtIdx(addr, ev.p, ev.id)))
  \/ T("get",  Get(ev.p, ev.r), Same)
  \/ T("delr", DeleteR(ev.p, ev.r), addr' = (IF ev.p < N THEN RemoveIdx(addr, ev.p) ELSE addr))
  \/ T("clear", Clear, addr' = <<>>)
  \/ T("dump", UNCHANGED items, Same)
  \/ (Done /\ UNCHANGED <<items, addr>>)
TInit == TraceInit /\ SInit /\ addr = <<>>
=============================================================================
