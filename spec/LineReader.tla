----------------------------- MODULE LineReader -----------------------------
(* Reading a file line by line (C15).  lines: the newline-separated lines;  *)
(* next: how many have been returned.  A buffer of b bytes takes a line of  *)
(* at most b - 1 bytes.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, Lines
VARIABLES lines, next, open
lvars == <<lines, next, open>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Open(c) == lines' = Lines(c) /\ next' = 0 /\ open' = TRUE
Close == open /\ open' = FALSE /\ UNCHANGED <<lines, next>>
Same == UNCHANGED lvars
AtEnd == next = Len(lines)
Cur == lines[next + 1]
\* err: a system call failed during the call
ReadLine(b, r, s, err) == open /\
   IF AtEnd THEN (r = -2 \/ (err /\ r > 0)) /\ Same
   ELSE \/ Len(Cur) < b /\ r = 0 /\ s = Cur /\ next' = next + 1 /\ UNCHANGED <<lines, open>>
        \/ Len(Cur) >= b /\ r = -3 /\ Same
        \/ err /\ r > 0 /\ Same
NextLength(r, err) == open /\ Same /\ ((err /\ r = -1) \/ r = (IF AtEnd THEN -1 ELSE Len(Cur)))
RInit == lines = <<>> /\ next = 0 /\ open = FALSE
=============================================================================
