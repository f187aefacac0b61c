-------------------------------- MODULE TgMC -------------------------------
(* tglist (capacity 4, 8, 16, ... ; memmove of the tail) and tgilist (an     *)
(* index table over an append-only value list with dead slots) as kept by    *)
(* the implementation, in lock step, against the abstract sequence.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, MaxAdds, Vals
VARIABLES cells, count,          \* tglist: buffer and used cells
          idx, store,            \* tgilist: index table, value list
          seq,                   \* the abstract sequence
          hist
vars == <<cells, count, idx, store, seq, hist>>
\* dead values in the store matter only by position: keep the store exact
View == <<cells, count, idx, store, seq>>
G == 99
Str(x) == ToString(x)
Do(s) == hist' = Append(hist, s) /\ PrintT("@S" \o ToJson(hist'))
Ins(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
Rem(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
Grown == IF count = Len(cells) THEN cells \o [i \in 1..(IF cells = <<>> THEN 4 ELSE Len(cells)) |-> G] ELSE cells
Move(c, d, s, n) == [i \in 1..Len(c) |-> IF i - 1 >= d /\ i - 1 < d + n THEN c[i - d + s] ELSE c[i]]
MCInit == cells = <<>> /\ count = 0 /\ idx = <<>> /\ store = <<>> /\ seq = <<>> /\ hist = <<>>
AddM(v) == /\ Len(store) < MaxAdds /\ count < MaxLen
           /\ cells' = [Grown EXCEPT ![count + 1] = v] /\ count' = count + 1
           /\ idx' = Append(idx, Len(store)) /\ store' = Append(store, v)
           /\ seq' = Append(seq, v) /\ Do("add " \o Str(v))
InsM(v, p) == /\ Len(store) < MaxAdds /\ count < MaxLen /\ p <= count
              /\ cells' = [Move(Grown, p + 1, p, count - p) EXCEPT ![p + 1] = v] /\ count' = count + 1
              /\ store' = Append(store, v) /\ idx' = Ins(idx, p, Len(store))
              /\ seq' = Ins(seq, p, v) /\ Do("ins " \o Str(v) \o " " \o Str(p))
SetM(v, p) == /\ p < count /\ cells' = [cells EXCEPT ![p + 1] = v]
              /\ store' = [store EXCEPT ![idx[p + 1] + 1] = v] /\ seq' = [seq EXCEPT ![p + 1] = v]
              /\ UNCHANGED <<count, idx>> /\ Do("set " \o Str(v) \o " " \o Str(p))
DelM(p) == /\ p < count /\ cells' = Move(cells, p, p + 1, count - (p + 1)) /\ count' = count - 1
           /\ idx' = Rem(idx, p) /\ UNCHANGED store /\ seq' = Rem(seq, p) /\ Do("del " \o Str(p))
MCNext == \/ \E v \in Vals : AddM(v)
          \/ \E v \in Vals, p \in 0..MaxLen : InsM(v, p) \/ SetM(v, p)
          \/ \E p \in 0..MaxLen : DelM(p)
TglistOK  == SubSeq(cells, 1, count) = seq /\ count <= Len(cells)
TgilistOK == Len(idx) = Len(seq) /\ \A i \in 1..Len(idx) : idx[i] < Len(store) /\ store[idx[i] + 1] = seq[i]
IdxDistinct == \A i, j \in 1..Len(idx) : i # j => idx[i] # idx[j]
=============================================================================
