------------------------------ MODULE SblistMC -----------------------------
(* sblist as the implementation keeps it: a buffer of capa cells of which   *)
(* the first count are in use, growing by block cells when full, moved with *)
(* memmove.  Checked exhaustively: it refines SeqList, never touches a cell *)
(* outside the buffer.  Every transition of this model is printed as a      *)
(* script (shortest history to the state, then the operation) and replayed  *)
(* into the real code.                                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Vals, Blocks, MaxAdopt
VARIABLES block, cells, count, oob, lastop, hist
vars == <<block, cells, count, oob, lastop, hist>>
capa == Len(cells)
absItems == SubSeq(cells, 1, count)
Abs == INSTANCE SeqList WITH items <- absItems
Garbage == 99
View == <<block, cells, count>>
Str(x) == ToString(x)
\* grow if needed, then the cells as they are
Grown == IF count = capa THEN cells \o [i \in 1..(IF block = 0 THEN 2 ELSE block) |-> Garbage] ELSE cells
\* memmove(cells+d, cells+s, n): sets oob if a touched cell is outside
Move(c, d, s, n) == [i \in 1..Len(c) |-> IF i - 1 >= d /\ i - 1 < d + n THEN c[i - d + s] ELSE c[i]]
MoveOob(c, d, s, n) == n > 0 /\ (d + n > Len(c) \/ s + n > Len(c) \/ d < 0 \/ s < 0)
Put(c, p, v) == [c EXCEPT ![p + 1] = v]

Do(s) == hist' = Append(hist, s) /\ PrintT("@S" \o ToJson(hist'))
MCInit == \/ /\ block \in Blocks /\ cells = <<>> /\ count = 0
             /\ \E m \in {"new", "init"} : hist = <<"mk " \o m \o " " \o Str(block)>>
             /\ oob = FALSE /\ lastop = <<"mk">>
          \/ /\ block = 0 /\ oob = FALSE /\ lastop = <<"mk">>
             /\ \E n \in 0..MaxAdopt : /\ cells = [i \in 1..n |-> i % 2] /\ count = n
                                       /\ hist = <<"mk data " \o Str(n)>>
MAdd(v, k) ==
  /\ count < MaxLen
  /\ cells' = Put(Grown, count, v) /\ count' = count + 1
  /\ lastop' = <<"add", v>> /\ oob' = oob /\ UNCHANGED block
  /\ Do(k \o " " \o Str(v))
MInsert(v, p) ==
  /\ count < MaxLen
  /\ IF p > count THEN UNCHANGED <<cells, count, oob>>
     ELSE LET g == Grown IN
          /\ cells' = Put(Move(g, p + 1, p, count - p), p, v)
          /\ oob' = (oob \/ MoveOob(g, p + 1, p, count - p)) /\ count' = count + 1
  /\ lastop' = <<"ins", v, p>> /\ UNCHANGED block
  /\ Do("ins " \o Str(v) \o " " \o Str(p))
MSet(v, p) ==
  /\ IF p >= count THEN UNCHANGED cells ELSE cells' = Put(cells, p, v)
  /\ UNCHANGED <<block, count, oob>> /\ lastop' = <<"set", v, p>>
  /\ Do("set " \o Str(v) \o " " \o Str(p))
MDelete(p) ==
  /\ IF p >= count THEN UNCHANGED <<cells, count, oob>>
     ELSE /\ cells' = Move(cells, p, p + 1, count - (p + 1)) /\ count' = count - 1
          /\ oob' = (oob \/ MoveOob(cells, p, p + 1, count - (p + 1)))
  /\ UNCHANGED block /\ lastop' = <<"del", p>>
  /\ Do("del " \o Str(p))
MPop ==
  /\ IF count = 0 THEN UNCHANGED <<cells, count>> ELSE count' = count - 1 /\ UNCHANGED cells
  /\ UNCHANGED <<block, oob>> /\ lastop' = <<"pop">>
  /\ Do("pop")
MClear == cells' = <<>> /\ count' = 0 /\ UNCHANGED <<block, oob>> /\ lastop' = <<"clear">> /\ Do("clear")
MCNext == \/ \E v \in Vals : MAdd(v, "add") \/ MAdd(v, "addi")
          \/ \E v \in Vals, p \in 0..MaxLen + 1 : p <= count + 1 /\ (MInsert(v, p) \/ MSet(v, p))
          \/ \E p \in 0..MaxLen + 1 : p <= count + 1 /\ MDelete(p)
          \/ MPop \/ MClear
InBounds == ~oob /\ count <= capa
\* the step just taken is the SeqList action of the same name
Refines == [][ LET op == lastop' IN
   CASE op[1] = "add" -> absItems' = Append(absItems, op[2])
     [] op[1] = "ins" -> absItems' = (IF op[3] <= Len(absItems) THEN Abs!InsertAtIdx(absItems, op[3], op[2]) ELSE absItems)
     [] op[1] = "set" -> absItems' = (IF op[3] < Len(absItems) THEN [absItems EXCEPT ![op[3] + 1] = op[2]] ELSE absItems)
     [] op[1] = "del" -> absItems' = (IF op[2] < Len(absItems) THEN Abs!RemoveIdx(absItems, op[2]) ELSE absItems)
     [] op[1] = "pop" -> absItems' = (IF absItems = <<>> THEN <<>> ELSE SubSeq(absItems, 1, Len(absItems) - 1))
     [] OTHER -> absItems' = <<>> ]_vars
=============================================================================
