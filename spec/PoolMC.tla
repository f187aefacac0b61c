-------------------------------- MODULE PoolMC ------------------------------
(* ssalloc as implemented: bump pointer top, counter avail, bitmap searched in *)
(* words of WB bits; frees of anything.  Against "a set of used slots".        *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS NE, WB
VARIABLES used, top, avail, out, got, hist
vars == <<used, top, avail, out, got, hist>>
View == <<used, top, avail, out, got>>
Slots == 0..NE - 1
MCInit == used = {} /\ top = 0 /\ avail = NE /\ out = {} /\ got = -2 /\ hist = <<>>
Do(s) == hist' = Append(hist, s) /\ PrintT("@S" \o ToJson(hist'))
Words == 0..((NE + WB - 1) \div WB) - 1
Hole == LET ws == {w \in Words : \E i \in Slots : i \div WB = w /\ i \notin used}
            w == CHOOSE x \in ws : \A y \in ws : x <= y
            cand == {i \in Slots : i \div WB = w /\ i \notin used}
        IN IF ws = {} THEN -1 ELSE CHOOSE i \in cand : \A j \in cand : i <= j
Alloc == LET s == IF top < NE THEN top ELSE IF avail > 0 THEN Hole ELSE -1 IN
         /\ got' = s
         /\ IF s = -1 THEN UNCHANGED <<used, top, avail, out>>
            ELSE /\ used' = used \cup {s} /\ avail' = avail - 1 /\ out' = out \cup {s}
                 /\ top' = IF top < NE THEN top + 1 ELSE top
         /\ Do("alloc")
RECURSIVE Shrink(_, _)
Shrink(u, t) == IF t > 0 /\ (t - 1) \notin u THEN Shrink(u, t - 1) ELSE t
\* x outside Slots: a pointer that is not a block of the pool
Free(x) == /\ IF x \in Slots /\ x \in used
              THEN used' = used \ {x} /\ avail' = avail + 1 /\ top' = Shrink(used \ {x}, top) /\ out' = out \ {x}
              ELSE UNCHANGED <<used, top, avail, out>>
           /\ got' = -2 /\ Do("free " \o ToString(x))
MCNext == Alloc \/ \E x \in -2..NE + 1 : Free(x)
Sets == used = out /\ avail = NE - Cardinality(out) /\ (\A i \in Slots : i >= top => i \notin used)
Fresh == [][ got' >= 0 => got' \notin out ]_vars
IffRoom == [][ (got' # -2) => ((got' = -1) <=> (Cardinality(out) = NE)) ]_vars
=============================================================================
