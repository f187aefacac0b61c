------------------------------- MODULE Codec --------------------------------
(* Base64 (RFC 4648, with padding), hex and dotted IPv4 texts.              *)
EXTENDS Integers, Sequences, Scan
\* ---- base64
B64(i) == IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47
IsB64(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c = 43 \/ c = 47
Val64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63
EQ == 61
At0(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* character k of the encoding (four for each started group of three bytes)
EncLen(n) == 4 * ((n + 2) \div 3)
Enc(s) == [k \in 1..EncLen(Len(s)) |->
             LET g == 3 * ((k - 1) \div 4)  a == At0(s, g + 1)  b == At0(s, g + 2)  c == At0(s, g + 3)  p == (k - 1) % 4 IN
             IF p = 0 THEN B64(a \div 4)
             ELSE IF p = 1 THEN B64((a % 4) * 16 + b \div 16)
             ELSE IF p = 2 THEN (IF g + 2 > Len(s) THEN EQ ELSE B64((b % 16) * 4 + c \div 64))
             ELSE (IF g + 3 > Len(s) THEN EQ ELSE B64(c % 64))]
Pads(t) == IF t = <<>> \/ t[Len(t)] # EQ THEN 0 ELSE IF Len(t) > 1 /\ t[Len(t) - 1] = EQ THEN 2 ELSE 1
Valid64(t) == /\ t # <<>> /\ Len(t) % 4 = 0
              /\ \A i \in 1..Len(t) - Pads(t) : IsB64(t[i])
V(t, i) == IF t[i] = EQ THEN 0 ELSE Val64(t[i])
Dec(t) == [k \in 1..(3 * (Len(t) \div 4) - Pads(t)) |->
             LET g == 4 * ((k - 1) \div 3)  p == (k - 1) % 3 IN
             IF p = 0 THEN V(t, g + 1) * 4 + V(t, g + 2) \div 16
             ELSE IF p = 1 THEN (V(t, g + 2) % 16) * 16 + V(t, g + 3) \div 4
             ELSE (V(t, g + 3) % 4) * 64 + V(t, g + 4)]
Canonical(t) == Valid64(t) /\ Enc(Dec(t)) = t
DecBuf(t) == 1 + 3 * (Len(t) \div 4)         \* documented buffer size
\* ---- hex
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 0
HexEnc(s) == [k \in 1..2 * Len(s) |-> LET b == s[(k + 1) \div 2] IN Hex(IF k % 2 = 1 THEN b \div 16 ELSE b % 16)]
HexDec(t) == LET u == IF Len(t) % 2 = 1 THEN <<48>> \o t ELSE t IN [k \in 1..Len(u) \div 2 |-> 16 * HVal(u[2 * k - 1]) + HVal(u[2 * k])]
\* ---- IPv4
IsDigit(c) == c >= 48 /\ c <= 57
DOT == 46
Dots(t) == { i \in 1..Len(t) : t[i] = DOT }
NDigits(t) == Len(SelectSeq(t, IsDigit))
\* four non-empty groups of digits separated by single dots, at most 12 digits in total
IsV4(t) == /\ \A i \in 1..Len(t) : IsDigit(t[i]) \/ t[i] = DOT
           /\ Len(SelectSeq(t, LAMBDA c : c = DOT)) = 3
           /\ t[1] # DOT /\ t[Len(t)] # DOT /\ \A i \in 1..Len(t) - 1 : ~(t[i] = DOT /\ t[i + 1] = DOT)
           /\ NDigits(t) <= 12
Dec3(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>> ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
V4Text(a) == Dec3(a[1]) \o <<DOT>> \o Dec3(a[2]) \o <<DOT>> \o Dec3(a[3]) \o <<DOT>> \o Dec3(a[4])
\* the fields of a text, separated by dots
\* (only the first n of them)
RECURSIVE Fields(_, _, _)
Fields(t, i, n) == IF n = 0 THEN <<>> ELSE LET d == FirstTrue([x \in i..Len(t) |-> t[x] = DOT], i, Len(t)) IN
                   IF d = -1 THEN <<SubSeq(t, i, Len(t))>> ELSE <<SubSeq(t, i, d - 1)>> \o Fields(t, d + 1, n - 1)
FieldsOf(t) == Fields(t, 1, 6)
RECURSIVE DecVal(_, _)
DecVal(f, i) == IF i = 0 THEN 0 ELSE IF i > 6 THEN 1000 ELSE DecVal(f, i - 1) * 10 + f[i] - 48
\* four decimal fields, each 0..255, at most 6 digits each
Octets(t) == LET f == FieldsOf(t) IN
             /\ Len(f) = 4 /\ \A k \in 1..4 : f[k] # <<>> /\ Len(f[k]) <= 6 /\ (\A i \in 1..Len(f[k]) : IsDigit(f[k][i])) /\ DecVal(f[k], Len(f[k])) <= 255
=============================================================================
