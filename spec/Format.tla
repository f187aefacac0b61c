------------------------------- MODULE Format -------------------------------
(* What a format with its arguments expands to.  An argument is a record    *)
(* [t |-> "s", b |-> bytes], [t |-> "n"] (NULL string) or [t |-> "i",       *)
(* w |-> 64-bit word].  Result: <<"ok", bytes>>, <<"fail", <<>>>> for a     *)
(* conversion that is not supported, <<"any", <<>>>> where nothing is       *)
(* promised (a precision on %s, %c, %p, %%, or outside 1..30).              *)
EXTENDS Num
PC == 37
IsDig(c) == c >= 48 /\ c <= 57
At(f, i) == IF i <= Len(f) THEN f[i] ELSE 0
RECURSIVE DigEnd(_, _)
DigEnd(f, i) == IF IsDig(At(f, i)) THEN DigEnd(f, i + 1) ELSE i
RECURSIVE ToInt(_, _, _)
ToInt(f, i, j) == IF j < i THEN 0 ELSE IF j - i > 3 THEN 9999 ELSE ToInt(f, i, j - 1) * 10 + f[j] - 48
Bad == <<"fail", <<>>>>
Any == <<"any", <<>>>>
Cat(x, r) == IF r[1] # "ok" THEN r ELSE <<"ok", x \o r[2]>>
RECURSIVE Exp(_, _, _, _)
Exp(f, i, as, k) ==
  IF i > Len(f) THEN <<"ok", <<>>>>
  ELSE IF f[i] # PC THEN LET j == FirstTrue([x \in i..Len(f) |-> f[x] = PC], i, Len(f))  e == IF j = -1 THEN Len(f) + 1 ELSE j IN Cat(SubSeq(f, i, e - 1), Exp(f, e, as, k))
  ELSE LET hasp == At(f, i + 1) = 46
           e == IF hasp THEN DigEnd(f, i + 2) ELSE i + 1         \* first character after the precision
           prec == IF hasp THEN ToInt(f, i + 2, e - 1) ELSE 0
           c == At(f, e)
           long == IF c = 108 /\ At(f, e + 1) = 108 THEN 2 ELSE IF c = 108 \/ c = 122 THEN 1 ELSE 0
           d == At(f, e + long)                                  \* the conversion character
           num(w, b, sg, low) == IF hasp /\ (prec < 1 \/ prec > 30) THEN Any
                                 ELSE Cat(NumText(w, b, sg, low, prec), Exp(f, e + long + 1, as, k + 1))
           plain(x, n) == IF hasp THEN Any ELSE Cat(x, Exp(f, e + 1, as, k + n))
       IN
       IF hasp /\ e = i + 2 THEN Bad                             \* "%." without digits
       ELSE IF hasp /\ c = 46 THEN Any
       ELSE IF long > 0 THEN
            IF d \in {100, 117} THEN num(as[k].w, 10, d = 100, FALSE) ELSE (IF hasp THEN Any ELSE Bad)
       ELSE IF c = PC THEN plain(<<PC>>, 0)
       ELSE IF c = 115 THEN (IF as[k].t = "n" THEN Bad ELSE plain(as[k].b, 1))
       ELSE IF c = 99 THEN plain(<<as[k].w[4] % 256>>, 1)
       ELSE IF c = 100 THEN num(Sext32(as[k].w), 10, TRUE, FALSE)
       ELSE IF c = 117 THEN num(Low32(as[k].w), 10, FALSE, FALSE)
       ELSE IF c = 120 THEN num(Low32(as[k].w), 16, FALSE, TRUE)
       ELSE IF c = 88 THEN num(Low32(as[k].w), 16, FALSE, FALSE)
       ELSE IF c = 112 THEN plain(NumText(as[k].w, 16, FALSE, FALSE, 0), 1)
       ELSE Bad
Expand(f, as) == Exp(f, 1, as, 1)
MinN(a, b) == IF a < b THEN a ELSE b
\* what a caller with a buffer of size n (-1: no buffer) sees: r, stored bytes o, terminated
Bounded(x, n, r, o, nul) ==
  \/ x[1] = "ok" /\ n = -1 /\ r = Len(x[2])
  \/ x[1] = "ok" /\ n = 0 /\ r = 0
  \/ x[1] = "ok" /\ n > 0 /\ r = MinN(Len(x[2]), n - 1) /\ o = SubSeq(x[2], 1, r) /\ nul
  \/ x[1] = "fail" /\ r = -1
  \/ x[1] = "any" /\ (r = -1 \/ n = -1 \/ (n = 0 /\ r = 0) \/ (r >= 0 /\ r <= n - 1 /\ nul))
\* variants that emit: everything up to a limit, nothing on failure
Emitted(x, limit, o) ==
  \/ x[1] = "ok" /\ (IF Len(x[2]) <= limit THEN o = x[2] ELSE o \in {x[2], SubSeq(x[2], 1, limit)})
  \/ x[1] = "fail" /\ o = <<>>
  \/ x[1] = "any"
=============================================================================
