------------------------------ MODULE BigStrMC ------------------------------
(* BigStr against the definitions on the strings themselves, Base small.    *)
EXTENDS BigStr, Strings, TLC
CONSTANTS MaxN, MaxT, MaxD
VARIABLES n, t, d
Al == {97, 98}
Str(m) == UNION { [1..k -> Al] : k \in 0..m }
Num(p) == p[1] * Base + p[2]
f == 97
S == Rep(f, Num(n)) \o t
MCInit == /\ n \in { Norm(0, x) : x \in 4..MaxN } /\ t \in Str(MaxT) /\ d \in Str(MaxD) /\ SInit
MCNext == FALSE /\ UNCHANGED <<n, t, d, svars>>
Valid == n[2] < Base /\ Num(BLen(n, t)) = Len(S)
SearchOk == /\ BContains(f, t, d) = Contains(S, d)
            /\ \A c \in {97, 98, 99} : (LET x == BLast(f, n, t, c) IN IF x = <<>> THEN LastIdx(S, c) = -1 ELSE LastIdx(S, c) = Num(x))
            /\ \A x \in 4..MaxN : BEq(f, n, t, Norm(0, x), d) = (S = Rep(f, x) \o d)
SplitOk == (\E i \in 1..Len(d) : d[i] # f) =>
   LET a == Split(S, d)  b == BSplit(f, n, t, d) IN
   /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].at = Num(b[i].at) /\ Len(a[i].bytes) = Num(b[i].len)
   /\ \A w \in {<<>>, <<98>>, <<97, 98>>} : Replace(S, d, w) = Rep(f, Num(n) - 4) \o BReplTail(f, t, d, w, 4)
ArithOk == /\ \A x \in 0..MaxN : LET p == Norm(0, x) IN
                /\ Num(PHalf(p)) = x \div 2 /\ Num(P34(Norm(0, 4 * x))) = 3 * x /\ PMod(p, 3) = x % 3
                /\ \A y \in 0..x : Num(PMinus(p, Norm(0, y))) = x - y /\ Num(PPlus(p, Norm(0, y))) = x + y /\ PLe(Norm(0, y), p)
Big == Rep(f, Num(n) + 44) \o t
CodecOk == LET m == Norm(0, Num(n) + 44) IN
   /\ EndOf(Enc(Big), 40) = BEncTail(f, m, t) /\ EndOf(HexEnc(Big), 40) = BHexTail(f, t) /\ EndOf(HexDec(Big), 20) = BHexDecTail(f, t)
   /\ (Len(Big) % 4 = 0 => EndOf(Dec(Big), 30) = BDecTail(f, t) /\ Len(Dec(Big)) = Num(BDecLen(m, t)))
=============================================================================
