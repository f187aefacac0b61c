-------------------------------- MODULE NtsMC -------------------------------
(* The conversion algorithm (fill with zeros, place digits from the end,    *)
(* drop leading zeros or keep them) with words of WordMax values, against   *)
(* positional notation; then the parser's right-to-left accumulation.       *)
(* Prints the cases (base, maximal length, flags, value pattern).           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Half, Bases, MaxLens
VARIABLES v, base, ml, pad, sg, num, len, buf, st
vars == <<v, base, ml, pad, sg, num, len, buf, st>>
RECURSIVE Dig(_, _)
Dig(n, b) == IF n < b THEN <<n>> ELSE Dig(n \div b, b) \o <<n % b>>
Z(n) == [i \in 1..n |-> 0]
Neg == sg /\ v >= Half                       \* two's complement of 2 * Half values
Mag == IF Neg THEN 2 * Half - v ELSE v
MCInit == /\ v \in 0..2 * Half - 1 /\ base \in Bases /\ ml \in MaxLens /\ pad \in BOOLEAN /\ sg \in BOOLEAN
          /\ num = Mag /\ len = (IF ml = 0 THEN Len(Dig(Mag, base)) ELSE ml) /\ buf = Z(len) /\ st = "run"
          /\ (v % 7 = 3 => PrintT("@S" \o ToJson(<<v, base, ml, IF pad THEN 1 ELSE 0, IF sg THEN 1 ELSE 0>>)))
Place == /\ st = "run" /\ num > 0 /\ len > 0 /\ buf' = [buf EXCEPT ![len] = num % base] /\ num' = num \div base /\ len' = len - 1
         /\ UNCHANGED <<v, base, ml, pad, sg, st>>
Lead == { i \in 1..Len(buf) : \A j \in 1..i : buf[j] = 0 }
Strip == IF Mag = 0 THEN <<0>> ELSE SubSeq(buf, Len(SelectSeq([i \in 1..Len(buf) |-> i \in Lead], LAMBDA x : x)) + 1, Len(buf))
End == /\ st = "run" /\ (num = 0 \/ len = 0) /\ st' = "done" /\ buf' = (IF pad THEN buf ELSE Strip)
       /\ UNCHANGED <<v, base, ml, pad, sg, num, len>>
MCNext == Place \/ End
Fits == ml = 0 \/ Len(Dig(Mag, base)) <= ml
Exact == st = "done" /\ Fits => LET d == Dig(Mag, base) IN buf = (IF pad /\ ml > Len(d) THEN Z(ml - Len(d)) \o d ELSE d)
RECURSIVE Val(_, _)
Val(d, i) == IF i = 0 THEN 0 ELSE Val(d, i - 1) * base + d[i]
Inverse == st = "done" /\ Fits => Val(buf, Len(buf)) = Mag
=============================================================================
