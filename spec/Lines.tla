------------------------------- MODULE Lines --------------------------------
(* Text and its lines: every line ends with a newline, except that the last *)
(* one may lack it.  By halves: TLC's cost of a recursion grows with depth. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
\* positions of the newlines in b[lo..h], ascending
RECURSIVE NewlinesIn(_, _, _)
NewlinesIn(b, lo, h) == IF lo > h THEN <<>> ELSE IF lo = h THEN (IF b[lo] = 10 THEN <<lo>> ELSE <<>>)
                        ELSE LET m == (lo + h) \div 2 IN NewlinesIn(b, lo, m) \o NewlinesIn(b, m + 1, h)
Lines(b) == LET k == NewlinesIn(b, 1, Len(b)) n == Len(k)
                piece(i) == SubSeq(b, IF i = 1 THEN 1 ELSE k[i - 1] + 1, IF i > n THEN Len(b) ELSE k[i] - 1)
            IN [i \in 1..(IF n > 0 /\ k[n] = Len(b) THEN n ELSE IF b = <<>> THEN 0 ELSE n + 1) |-> piece(i)]
RECURSIVE TextIn(_, _, _)
TextIn(ls, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN Append(ls[i], 10) ELSE LET m == (i + j) \div 2 IN TextIn(ls, i, m) \o TextIn(ls, m + 1, j)
Text(ls) == TextIn(ls, 1, Len(ls))
=============================================================================
