------------------------------ MODULE SearchMC ------------------------------
(* The scans (compare forwards, on a mismatch restart one after the start   *)
(* of the attempt, stop at the end of the text) and the word search built   *)
(* on them, against the leftmost match, for all texts and needles.          *)
EXTENDS Search, TLC, Json
CONSTANTS Text, Needle, MaxText, MaxNeedle
VARIABLES kind, h, n, at, i, base, st, res
vars == <<kind, h, n, at, i, base, st, res>>
Seqs(A, k) == UNION { [1..m -> A] : m \in 0..k }
MCInit == /\ kind \in {"uc", "star", "word"} /\ h \in Seqs(Text, MaxText) /\ n \in Seqs(Needle, MaxNeedle)
          /\ at = 0 /\ i = 0 /\ base = 0 /\ st = "run" /\ res = -1
          /\ ((Len(h) + Len(n) < 5 \/ Len(h) = MaxText) => PrintT("@S" \o ToJson(<<kind, h, n>>)))
Eq(a, b) == IF kind = "star" THEN StarEq(a, b) ELSE UcEq(a, b)
Same == UNCHANGED <<kind, h, n, base>>
\* st "run": at = start of the attempt, i = characters matched
Step == /\ st = "run" /\ n # <<>>
        /\ IF i = Len(n) THEN
              IF kind # "word" \/ ((at = 0 \/ h[at] \in Delim) /\ (at + i = Len(h) \/ h[at + i + 1] \in Delim \cup {13}))
              THEN st' = "done" /\ res' = at /\ UNCHANGED <<at, i>> /\ Same
              ELSE at' = at + 1 /\ i' = 0 /\ UNCHANGED <<st, res>> /\ Same
           ELSE IF at + i >= Len(h) THEN st' = "done" /\ UNCHANGED <<at, i, res>> /\ Same
           ELSE IF Eq(h[at + i + 1], n[i + 1]) THEN i' = i + 1 /\ UNCHANGED <<at, st, res>> /\ Same
           ELSE at' = at + 1 /\ i' = 0 /\ UNCHANGED <<st, res>> /\ Same
Empty == st = "run" /\ n = <<>> /\ st' = "done" /\ UNCHANGED <<at, i, res>> /\ Same
MCNext == Step \/ Empty
Exact == st = "done" => res = (IF kind = "word" THEN FindWord(h, n) ELSE Find(Eq, h, n))
=============================================================================
