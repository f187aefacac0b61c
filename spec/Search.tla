------------------------------- MODULE Search -------------------------------
(* Text search and ASCII classes.  Offsets from 0; -1: not found.           *)
EXTENDS Integers, Sequences, FiniteSets
Lo(c) == c \in 97..122
Up(c) == c \in 65..90
Dg(c) == c \in 48..57
ToUp(c) == IF Lo(c) THEN c - 32 ELSE c
ToLo(c) == IF Up(c) THEN c + 32 ELSE c
UcEq(h, n) == ToUp(h) = n
StarEq(h, n) == n = 42 \/ h = n
\* match of needle n in h at offset p
\* (the head of the needle first: an interval costs TLC its length)
Head16(n) == IF Len(n) < 16 THEN Len(n) ELSE 16
MatchAt(Eq(_, _), h, n, p) == /\ p + Len(n) <= Len(h) /\ \A i \in 1..Head16(n) : Eq(h[p + i], n[i])
                              /\ \A i \in 17..Len(n) : Eq(h[p + i], n[i])
Leftmost(P(_), k) == IF \E p \in 0..k : P(p) THEN CHOOSE p \in 0..k : P(p) /\ \A o \in 0..p - 1 : ~P(o) ELSE -1
Find(Eq(_, _), h, n) == IF n = <<>> THEN -1 ELSE Leftmost(LAMBDA p : MatchAt(Eq, h, n, p), Len(h))
Delim == {32, 9, 10, 58, 44, 46, 59, 45}         \* space, tab, newline : , . ; -
FindWord(h, n) == IF n = <<>> THEN -1
   ELSE Leftmost(LAMBDA p : /\ MatchAt(UcEq, h, n, p) /\ (p = 0 \/ h[p] \in Delim)
                            /\ (p + Len(n) = Len(h) \/ h[p + Len(n) + 1] \in Delim \cup {13}), Len(h))
Ends(s, e) == Len(e) <= Len(s) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
=============================================================================
