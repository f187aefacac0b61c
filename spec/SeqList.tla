------------------------------ MODULE SeqList ------------------------------
(* The abstract sequence container: what sblist, tglist, tgilist and tlist  *)
(* are to their users.  Every action is parameterised by the arguments and  *)
(* by the result r the caller sees; it is enabled exactly for the results   *)
(* the sequence semantics allows.  Indices are 0-based as in the C API.     *)
EXTENDS Integers, Sequences
VARIABLE items
Nul == -1                      \* "NULL" result of get / pop
N == Len(items)

InsertAtIdx(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
RemoveIdx(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
Range(v, n, m) == [i \in 1..n |-> (v + i - 1) % m]

New(init)        == items' = init
Add(v, r)        == r = 1 /\ items' = Append(items, v)
AddI(v, r)       == r = N /\ items' = Append(items, v)
AddFail(bad, r)  == r = bad /\ UNCHANGED items                 \* allocation failed
AddRange(v, n, m, r) == r = n /\ items' = items \o Range(v, n, m)
Insert(v, p, r)  == IF p <= N THEN r = 1 /\ items' = InsertAtIdx(items, p, v)
                              ELSE r = 0 /\ UNCHANGED items
Set(v, p, r)     == IF p < N THEN r = 1 /\ items' = [items EXCEPT ![p + 1] = v]
                             ELSE r = 0 /\ UNCHANGED items
Get(p, r)        == r = (IF p < N THEN items[p + 1] ELSE Nul) /\ UNCHANGED items
Last(r)          == r = (IF N > 0 THEN items[N] ELSE Nul) /\ UNCHANGED items
Delete(p)        == IF p < N THEN items' = RemoveIdx(items, p) ELSE UNCHANGED items
DeleteR(p, r)    == r = (IF p < N THEN 1 ELSE 0) /\ Delete(p)
Pop(r)           == IF N > 0 THEN r = items[N] /\ items' = SubSeq(items, 1, N - 1)
                             ELSE r = Nul /\ UNCHANGED items
Clear            == items' = <<>>
Count(r)         == r = N /\ UNCHANGED items
Dump(all)        == all = items /\ UNCHANGED items

SInit == items = <<>>
SNext == \/ \E v \in Nat, r \in Int : Add(v, r) \/ AddI(v, r) \/ Pop(r)
         \/ \E v \in Nat, p \in Nat, r \in Int : Insert(v, p, r) \/ Set(v, p, r)
         \/ \E p \in Nat : Delete(p)
         \/ Clear
=============================================================================
