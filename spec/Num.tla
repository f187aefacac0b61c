-------------------------------- MODULE Num ---------------------------------
(* 64-bit words as four 16-bit limbs, most significant first, and their     *)
(* positional representation (TLC's own integers have 32 bits).             *)
EXTENDS Integers, Sequences, Scan
Zero4 == <<0, 0, 0, 0>>
\* quotient and remainder by a small base
DivMod(w, b) == LET r1 == w[1] % b
                    x2 == r1 * 65536 + w[2]
                    x3 == (x2 % b) * 65536 + w[3]
                    x4 == (x3 % b) * 65536 + w[4] IN
                <<<<w[1] \div b, x2 \div b, x3 \div b, x4 \div b>>, x4 % b>>
RECURSIVE DigitsAcc(_, _, _)
DigitsAcc(w, b, acc) == IF w = Zero4 THEN acc ELSE LET q == DivMod(w, b) IN DigitsAcc(q[1], b, <<q[2]>> \o acc)
\* minimal digits of w in base b (one digit for zero)
Digits(w, b) == IF w = Zero4 THEN <<0>> ELSE DigitsAcc(w, b, <<>>)
\* two's complement
Neg(w) == LET a == 65536 - w[4] c4 == a \div 65536
              b == 65535 - w[3] + c4 c3 == b \div 65536
              d == 65535 - w[2] + c3 c2 == d \div 65536
              e == 65535 - w[1] + c2 IN <<e % 65536, d % 65536, b % 65536, a % 65536>>
IsNeg64(w) == w[1] >= 32768
IsNeg32(w) == w[3] >= 32768
Low32(w) == <<0, 0, w[3], w[4]>>
Sext32(w) == IF IsNeg32(w) THEN <<65535, 65535, w[3], w[4]>> ELSE Low32(w)
\* magnitude of w read as a signed 64-bit number
Abs64(w) == IF IsNeg64(w) THEN Neg(w) ELSE w
\* characters: 0-9 A-Z a-z; lower: a-z for 10..35
Upper(d) == IF d < 10 THEN 48 + d ELSE IF d < 36 THEN 55 + d ELSE 61 + d
Lower(d) == IF d < 10 THEN 48 + d ELSE IF d < 36 THEN 87 + d ELSE 61 + d
Chars(ds, low) == [i \in 1..Len(ds) |-> IF low THEN Lower(ds[i]) ELSE Upper(ds[i])]
PadTo(s, n) == IF Len(s) >= n THEN s ELSE [i \in 1..n - Len(s) |-> 48] \o s
\* text of w: signed or not, at least w digits
NumText(w, b, signed, low, pad) ==
   (IF signed /\ IsNeg64(w) THEN <<45>> ELSE <<>>) \o PadTo(Chars(Digits(IF signed THEN Abs64(w) ELSE w, b), low), pad)
\* w = 10 w + d (mod 2^64)
MulAdd(w, m, d) == LET a == w[4] * m + d b == w[3] * m + (a \div 65536) c == w[2] * m + (b \div 65536) e == w[1] * m + (c \div 65536)
                   IN <<e % 65536, c % 65536, b % 65536, a % 65536>>
RECURSIVE ParseFrom(_, _, _)
ParseFrom(s, i, w) == IF i > Len(s) THEN w ELSE ParseFrom(s, i + 1, MulAdd(w, 10, s[i] - 48))
\* the number a decimal text denotes (zeros in front of it add nothing)
ParseAt(s, i) == LET k == FirstTrue([x \in i..Len(s) |-> s[x] # 48], i, Len(s)) IN IF k = -1 THEN Zero4 ELSE ParseFrom(s, k, Zero4)
Parse(s) == IF s # <<>> /\ s[1] = 45 THEN Neg(ParseAt(s, 2)) ELSE ParseAt(s, 1)
=============================================================================
