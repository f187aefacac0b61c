-------------------------------- MODULE Ini ---------------------------------
(* INI files as lists of lines (C16).  A header line starts with '['; the   *)
(* header of section n starts with '[' n ']'.  A section is the lines after *)
(* its header up to the next header line; it is given by the index of its   *)
(* first line and its number of lines, <<0, 0>> if absent.                  *)
EXTENDS Integers, Sequences, FiniteSets, Scan
LB == 91
RB == 93
EQC == 61
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
IsHeader(x) == x # <<>> /\ x[1] = LB
HeaderOf(x, n) == StartsWith(x, <<LB>> \o n \o <<RB>>)
\* first section named n whose header is at line index >= from (0-based)
Section(ls, n, from) == LET m == Len(ls) - 1 h == FirstTrue([i \in from..m |-> HeaderOf(ls[i + 1], n)], from, m) IN
   IF h = -1 THEN <<0, 0>>
   ELSE LET e == FirstTrue([i \in h + 1..m |-> IsHeader(ls[i + 1])], h + 1, m) IN
        <<h + 1, (IF e = -1 THEN Len(ls) ELSE e) - (h + 1)>>
\* first line at or after off in the section st, ct with key k; -1 if none
KeyLine(ls, st, ct, k, off) == LET m == (IF st + ct <= Len(ls) THEN st + ct ELSE Len(ls)) - 1 p == k \o <<EQC>> IN
   FirstTrue([i \in st + off..m |-> StartsWith(ls[i + 1], p)], st + off, m)
Value(ls, i, k) == SubSeq(ls[i + 1], Len(k) + 2, Len(ls[i + 1]))
\* well-formed headers: '[' name ']' blanks; other lines starting with '[' leave the count open
WS(c) == c = 32 \/ c = 9
WellFormed(x) == \E e \in 3..Len(x) : x[e] = RB /\ (\A j \in e + 1..Len(x) : WS(x[j])) /\ (\A j \in 2..e - 1 : x[j] # LB /\ x[j] # RB)
Unclosed(x) == \A j \in 1..Len(x) : x[j] # RB
CountOK(ls, r) == IF \E i \in 1..Len(ls) : IsHeader(ls[i]) /\ ~WellFormed(ls[i]) /\ ~Unclosed(ls[i]) THEN TRUE
                  ELSE r = Cardinality({ i \in 1..Len(ls) : IsHeader(ls[i]) /\ WellFormed(ls[i]) })
=============================================================================
