------------------------------ MODULE Strings -------------------------------
(* Length-counted strings as sequences of bytes: the meaning of the string  *)
(* operations of stringptr, stringptrlist, kvlist, sptrlist and stringlist. *)
EXTENDS Integers, Sequences, FiniteSets, Scan
LF == 10
CR == 13
Occurs(s, d, i) == i + Len(d) <= Len(s) /\ (d = <<>> \/ s[i + 1] = d[1]) /\ SubSeq(s, i + 1, i + Len(d)) = d
\* leftmost occurrence of d in s at or after i, or -1
FindFrom(s, d, i) == LET h == Len(s) - Len(d) IN
                     FirstTrue([x \in i..h |-> Occurs(s, d, x)], i, h)
\* the greedy cuts at or after st and before h: positions of non-overlapping occurrences, leftmost first
RECURSIVE Cuts(_, _, _, _)
Cuts(s, d, st, h) ==
  IF st >= h THEN <<>>
  ELSE IF h - st <= 16 THEN LET p == FirstTrue([x \in st..h - 1 |-> Occurs(s, d, x)], st, h - 1)
                            IN IF p = -1 THEN <<>> ELSE <<p>> \o Cuts(s, d, p + Len(d), h)
  ELSE LET m == (st + h) \div 2
           a == Cuts(s, d, st, m)
           e == IF a # <<>> /\ a[Len(a)] + Len(d) > m THEN a[Len(a)] + Len(d) ELSE m
       IN a \o Cuts(s, d, e, h)
Split(s, d) == LET k == Cuts(s, d, 0, Len(s)) n == Len(k) IN
  [i \in 1..n + 1 |-> LET b == IF i = 1 THEN 0 ELSE k[i - 1] + Len(d)
                          e == IF i = n + 1 THEN Len(s) ELSE k[i]
                      IN [at |-> b, bytes |-> SubSeq(s, b + 1, e)]]
Bytes(ps) == [i \in 1..Len(ps) |-> ps[i].bytes]
Ats(ps) == [i \in 1..Len(ps) |-> ps[i].at]
RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(ps, d, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ps[i] ELSE LET m == (i + j) \div 2 IN JoinFrom(ps, d, i, m) \o d \o JoinFrom(ps, d, m + 1, j)
Join(ps, d) == JoinFrom(ps, d, 1, Len(ps))
\* the same as  ps = Bytes(Split(s, d)) /\ at = Ats(Split(s, d)),  piece by piece
IsSplit(s, d, ps, at) ==
  /\ Len(ps) >= 1 /\ Len(at) = Len(ps) /\ at[1] = 0
  /\ \A i \in 1..Len(ps) :
       LET e == at[i] + Len(ps[i]) IN
       /\ e <= Len(s) /\ ps[i] = SubSeq(s, at[i] + 1, e)
       /\ IF i = Len(ps) THEN e = Len(s) /\ FindFrom(ps[i], d, 0) = -1
          ELSE at[i + 1] = e + Len(d) /\ e + Len(d) <= Len(s) /\ FindFrom(SubSeq(s, at[i] + 1, e + Len(d)), d, 0) = Len(ps[i])
Replace(s, d, w) == Join(Bytes(Split(s, d)), w)
\* every entry followed by t
Terminated(ps, t) == IF ps = <<>> THEN <<>> ELSE Join(ps, t) \o t
Concat(ps) == Join(ps, <<>>)
Contains(s, d) == FindFrom(s, d, 0) >= 0
Here(s, p, d) == p <= Len(s) /\ Len(d) <= Len(s) - p /\ SubSeq(s, p + 1, p + Len(d)) = d
LastIdx(s, c) == LET x == LastTrue([k \in 1..Len(s) |-> s[k] = c], 1, Len(s)) IN IF x = -1 THEN -1 ELSE x - 1
Chomped(s) == LET x == LastTrue([k \in 1..Len(s) |-> s[k] \notin {CR, LF}], 1, Len(s)) IN IF x = -1 THEN <<>> ELSE SubSeq(s, 1, x)
\* C string prefix
\* first position, counted from 0, of an element x at or after i, or -1
FirstFrom(s, x, i) == FirstTrue([k \in i..Len(s) - 1 |-> s[k + 1] = x], i, Len(s) - 1)
CLen(s) == LET i == FirstFrom(s, 0, 0) IN IF i = -1 THEN Len(s) ELSE i
CStr(s) == SubSeq(s, 1, CLen(s))
Min2(a, b) == IF a < b THEN a ELSE b
\* first index (0-based) of an equal entry, or -1
FirstEq(l, x) == FirstFrom(l, x, 0)

(* state: the string under edit, the lists, the hashes seen *)
VARIABLES view, off, list, heap, kv, ptrs, strs, hashes
svars == <<view, off, list, heap, kv, ptrs, strs, hashes>>
SInit == view = <<>> /\ off = 0 /\ list = <<>> /\ heap = <<>> /\ kv = <<>> /\ ptrs = <<>> /\ strs = <<>> /\ hashes = {}
SNew == view' = <<>> /\ off' = 0 /\ list' = <<>> /\ heap' = <<>> /\ kv' = <<>> /\ ptrs' = <<>> /\ strs' = <<>> /\ hashes' = {}
Keep == UNCHANGED svars
SetView(s) == view' = s /\ off' = 0 /\ UNCHANGED <<list, heap, kv, ptrs, strs, hashes>>
\* cut n bytes off the tail / head; refused without change if there are fewer
ShiftLeft(n, r, v, at) == /\ r = (IF n <= Len(view) THEN 1 ELSE 0)
   /\ view' = (IF n <= Len(view) THEN SubSeq(view, 1, Len(view) - n) ELSE view)
   /\ v = view' /\ at = off /\ UNCHANGED <<off, list, heap, kv, ptrs, strs, hashes>>
ShiftRight(n, r, v, at) == /\ r = (IF n <= Len(view) THEN 1 ELSE 0)
   /\ view' = (IF n <= Len(view) THEN SubSeq(view, n + 1, Len(view)) ELSE view)
   /\ off' = (IF n <= Len(view) THEN off + n ELSE off)
   /\ v = view' /\ at = off' /\ UNCHANGED <<list, heap, kv, ptrs, strs, hashes>>
Chomp(r, v, at) == /\ view' = Chomped(view) /\ r = Len(view) - Len(view') /\ v = view' /\ at = off
   /\ UNCHANGED <<off, list, heap, kv, ptrs, strs, hashes>>
\* equal strings hash equally: no two different hashes for the same bytes
Hash(s, h) == /\ \A x \in hashes : x[1] = s => x[2] = h
              /\ hashes' = hashes \cup {<<s, h>>} /\ UNCHANGED <<view, off, list, heap, kv, ptrs, strs>>
ListAdd(s, owned) == list' = Append(list, s) /\ heap' = Append(heap, owned) /\ UNCHANGED <<view, off, kv, ptrs, strs, hashes>>
ListSet(i, s, r) == /\ r = (IF i < Len(list) THEN 1 ELSE 0)
   /\ list' = (IF i < Len(list) THEN [list EXCEPT ![i + 1] = s] ELSE list)
   /\ heap' = (IF i < Len(list) THEN [heap EXCEPT ![i + 1] = FALSE] ELSE heap)
   /\ UNCHANGED <<view, off, kv, ptrs, strs, hashes>>
\* an entry inserted at position i, counted from 0; refused past the end
ListInsert(i, s, r) == /\ r = (IF i <= Len(list) THEN 1 ELSE 0)
   /\ list' = (IF i <= Len(list) THEN SubSeq(list, 1, i) \o <<s>> \o SubSeq(list, i + 1, Len(list)) ELSE list)
   /\ heap' = (IF i <= Len(list) THEN SubSeq(heap, 1, i) \o <<FALSE>> \o SubSeq(heap, i + 1, Len(heap)) ELSE heap)
   /\ UNCHANGED <<view, off, kv, ptrs, strs, hashes>>
LexLe(a, b) == LET n == Min2(Len(a), Len(b)) k == FirstTrue([j \in 1..n |-> a[j] # b[j]], 1, n) IN IF k = -1 THEN Len(a) <= Len(b) ELSE a[k] < b[k]
\* into a sorted list: at any position that keeps it sorted
SortedInsert(s, r) == r \in 0..Len(list) /\ ListInsert(r, s, 1)
                      /\ (r > 0 => LexLe(list[r], s)) /\ (r < Len(list) => LexLe(s, list[r + 1]))
ListDup(n) == heap' = [i \in 1..Len(heap) |-> IF i <= n THEN TRUE ELSE heap[i]] /\ UNCHANGED <<view, off, list, kv, ptrs, strs, hashes>>
ListClearStrings == list' = [i \in 1..Len(list) |-> <<>>] /\ heap' = [i \in 1..Len(list) |-> FALSE] /\ UNCHANGED <<view, off, kv, ptrs, strs, hashes>>
ListNew == list' = <<>> /\ heap' = <<>> /\ UNCHANGED <<view, off, kv, ptrs, strs, hashes>>
KvAdd(s, v) == kv' = Append(kv, <<s, v>>) /\ UNCHANGED <<view, off, list, heap, ptrs, strs, hashes>>
KvSet(i, s, v, r) == /\ r = (IF i < Len(kv) THEN 1 ELSE 0)
   /\ kv' = (IF i < Len(kv) THEN [kv EXCEPT ![i + 1] = <<s, v>>] ELSE kv) /\ UNCHANGED <<view, off, list, heap, ptrs, strs, hashes>>
KvFirst(s) == LET I == { i \in 1..Len(kv) : kv[i][1] = s } IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
PtrAdd(v) == ptrs' = Append(ptrs, v) /\ UNCHANGED <<view, off, list, heap, kv, strs, hashes>>
PtrSet(i, v, r) == /\ r = (IF i < Len(ptrs) THEN 1 ELSE 0)
   /\ ptrs' = (IF i < Len(ptrs) THEN [ptrs EXCEPT ![i + 1] = v] ELSE ptrs) /\ UNCHANGED <<view, off, list, heap, kv, strs, hashes>>
StrAdd(s) == strs' = Append(strs, CStr(s)) /\ UNCHANGED <<view, off, list, heap, kv, ptrs, hashes>>
StrDel(i) ==
   /\ strs' = (IF i < Len(strs) THEN SubSeq(strs, 1, i) \o SubSeq(strs, i + 2, Len(strs)) ELSE strs)
   /\ UNCHANGED <<view, off, list, heap, kv, ptrs, hashes>>
=============================================================================
