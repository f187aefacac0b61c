------------------------------ MODULE FormatMC ------------------------------
(* The formatter as implemented, a loop over the format with a write        *)
(* pointer and a limit, for every format up to MaxLen over Alph and every   *)
(* destination size in Sizes; checked against Expand/Bounded.  Prints the   *)
(* formats.                                                                 *)
EXTENDS Format, TLC, Json
CONSTANTS MaxLen, Alph, Sizes
VARIABLES f, n, i, k, out, res, st
vars == <<f, n, i, k, out, res, st>>
Args == << [t |-> "i", w |-> <<65535, 65535, 65535, 65534>>], [t |-> "i", w |-> <<0, 0, 32768, 171>>], [t |-> "i", w |-> <<0, 0, 0, 0>>], [t |-> "i", w |-> <<0, 0, 0, 9>>], [t |-> "i", w |-> <<0, 0, 0, 9>>] >>
MCInit == /\ f \in UNION { [1..m -> Alph] : m \in 0..MaxLen } /\ n \in { s - 1 : s \in Sizes } /\ i = 1 /\ k = 1 /\ out = <<>> /\ res = 0 /\ st = "run"
            /\ (n = 3 => PrintT("@S" \o ToJson(f)))
\* store a character if there is room (n = -1: only count)
Put(s) == LET room == IF n = -1 THEN Len(s) ELSE IF n = 0 THEN 0 ELSE MinN(Len(s), n - 1 - Len(out)) IN
          /\ res' = res + room /\ out' = (IF n = -1 THEN out ELSE out \o SubSeq(s, 1, room))
Numb(w, b, sg, low, wd, j) == Put(NumText(w, b, sg, low, wd)) /\ i' = j /\ k' = k + 1 /\ UNCHANGED <<f, n, st>>
Fail == st' = "fail" /\ res' = -1 /\ UNCHANGED <<f, n, i, k, out>>
Conv(j, wd) == LET c == At(f, j) IN
   IF c = PC THEN Put(<<PC>>) /\ i' = j + 1 /\ UNCHANGED <<f, n, k, st>>
   ELSE IF c = 100 THEN Numb(Sext32(Args[k].w), 10, TRUE, FALSE, wd, j + 1)
   ELSE IF c = 120 THEN Numb(Low32(Args[k].w), 16, FALSE, TRUE, wd, j + 1)
   ELSE IF c = 108 THEN LET m == IF At(f, j + 1) = 108 THEN j + 2 ELSE j + 1 IN
        IF At(f, m) = 100 THEN Numb(Args[k].w, 10, TRUE, FALSE, wd, m + 1) ELSE Fail
   ELSE Fail
RECURSIVE Mods(_, _)
Mods(j, wd) == IF At(f, j) # 46 THEN Conv(j, wd) ELSE LET e == DigEnd(f, j + 1) IN IF e = j + 1 \/ ToInt(f, j + 1, e - 1) > 30 THEN Fail ELSE Mods(e, ToInt(f, j + 1, e - 1))
Step == st = "run" /\ i <= Len(f) /\ IF f[i] # PC THEN Put(<<f[i]>>) /\ i' = i + 1 /\ UNCHANGED <<f, n, k, st>> ELSE Mods(i + 1, 0)
End == st = "run" /\ i > Len(f) /\ st' = "done" /\ UNCHANGED <<f, n, i, k, out, res>>
MCNext == Step \/ End
Conforms == st # "run" => Bounded(Expand(f, Args), n, res, out, TRUE)
InBounds == n >= 0 => Len(out) <= (IF n = 0 THEN 0 ELSE n - 1)
=============================================================================
