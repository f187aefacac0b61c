------------------------------- MODULE Logger -------------------------------
(* C31: the text each logging call puts on its descriptor.                  *)
EXTENDS Num, Time
NL == <<10>>
\* an argument: [t |-> type, s |-> bytes, null |-> 0/1, w |-> 64-bit word]
\* types: 0 string with length, 1 and 2 C string, 3 int, 4 unsigned, 5 long, 6 unsigned long
CStr(s) == LET z == FirstTrue([x \in 1..Len(s) |-> s[x] = 0], 1, Len(s)) IN IF z = -1 THEN s ELSE SubSeq(s, 1, z - 1)
Render(a) == IF a.t \in {0, 1, 2} THEN (IF a.null = 1 THEN <<>> ELSE IF a.t = 0 THEN a.s ELSE CStr(a.s))
             ELSE IF a.t = 3 THEN NumText(Sext32(a.w), 10, TRUE, FALSE, 0)
             ELSE IF a.t = 4 THEN NumText(Low32(a.w), 10, FALSE, FALSE, 0)
             ELSE NumText(a.w, 10, a.t = 5, FALSE, 0)
RECURSIVE RenderAll(_)
RenderAll(as) == IF as = <<>> THEN <<>> ELSE Render(as[1]) \o RenderAll(Tail(as))
PutText(as) == RenderAll(as) \o NL
ErrorText(msg, null, descr) == (IF null = 1 THEN <<>> ELSE CStr(msg)) \o <<58, 32>> \o descr \o NL
RECURSIVE LinesOf(_, _, _)
LinesOf(as, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN CStr(as[i]) \o NL ELSE LET m == (i + j) \div 2 IN LinesOf(as, i, m) \o LinesOf(as, m + 1, j)
Lines(as) == LinesOf(as, 1, Len(as))
=============================================================================
