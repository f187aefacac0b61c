------------------------------- MODULE BigStr -------------------------------
(* Strings of more than 2^32 bytes: n times the byte f followed by a short  *)
(* tail t.  Sizes and positions are pairs <<multiple of 2^24, rest>>.  The  *)
(* operations of Strings and Codec restated on this representation;         *)
(* BigStrMC checks the restatement against the originals on small strings   *)
(* (with Base 4 in place of 2^24).                                          *)
EXTENDS Codec
CONSTANT Base
Norm(h, x) == <<h + x \div Base, x % Base>>
PAdd(p, k) == Norm(p[1], p[2] + k)
PPlus(p, q) == Norm(p[1] + q[1], p[2] + q[2])
PMinus(p, q) == LET x == p[2] - q[2] IN IF x < 0 THEN <<p[1] - q[1] - 1, x + Base>> ELSE <<p[1] - q[1], x>>
PLe(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
PMod(p, m) == ((p[1] % m) * (Base % m) + p[2]) % m
PHalf(p) == Norm(p[1] \div 2, (p[1] % 2) * (Base \div 2) + p[2] \div 2)
\* three quarters of a multiple of four
P34(p) == Norm((3 * p[1]) \div 4, ((3 * p[1]) % 4) * (Base \div 4) + 3 * (p[2] \div 4))
Rep(f, k) == [i \in 1..k |-> f]
BLen(n, t) == PAdd(n, Len(t))
\* the last k bytes, k at most the length
LastB(f, t, k) == IF Len(t) >= k THEN SubSeq(t, Len(t) - k + 1, Len(t)) ELSE Rep(f, k - Len(t)) \o t
\* the same string with a minimal tail
RECURSIVE CanonN(_, _, _), CanonT(_, _)
CanonN(f, n, t) == IF t # <<>> /\ t[1] = f THEN CanonN(f, PAdd(n, 1), SubSeq(t, 2, Len(t))) ELSE n
CanonT(f, t) == IF t # <<>> /\ t[1] = f THEN CanonT(f, SubSeq(t, 2, Len(t))) ELSE t
BEq(f, n, t, n2, t2) == CanonN(f, n, t) = CanonN(f, n2, t2) /\ CanonT(f, t) = CanonT(f, t2)
Max2(a, b) == IF a > b THEN a ELSE b
\* occurrences of a short d, longer than k but shorter than the fill: inside of the fill or in its end and the tail
Win(f, t, k) == Rep(f, k) \o t
BContains(f, t, d) == LET w == Win(f, t, Len(d)) IN \E i \in 0..Len(w) - Len(d) : SubSeq(w, i + 1, i + Len(d)) = d
\* last position of c: <<>> or the pair
BLast(f, n, t, c) == LET I == { i \in 1..Len(t) : t[i] = c } IN
   IF I # {} THEN PAdd(n, (CHOOSE i \in I : \A j \in I : j <= i) - 1) ELSE IF c = f THEN PMinus(n, <<0, 1>>) ELSE <<>>
RECURSIVE StripEnd(_, _)
StripEnd(t, S) == IF t # <<>> /\ t[Len(t)] \in S THEN StripEnd(SubSeq(t, 1, Len(t) - 1), S) ELSE t
\* leftmost non-overlapping occurrences of d, which does not occur wholly in the fill: offsets relative to n (they may be negative)
RECURSIVE Occ(_, _, _, _)
Occ(w, d, i, k) == IF i + Len(d) > Len(w) THEN <<>> ELSE IF SubSeq(w, i + 1, i + Len(d)) = d THEN <<i - k>> \o Occ(w, d, i + Len(d), k) ELSE Occ(w, d, i + 1, k)
BOcc(f, t, d) == LET k == Len(d) - 1 IN Occ(Win(f, t, k), d, 0, k)
Rel(n, x) == IF x >= 0 THEN PAdd(n, x) ELSE PMinus(n, <<0, -x>>)
\* pieces as <<start, length>>
BSplit(f, n, t, d) == LET o == BOcc(f, t, d)  L == BLen(n, t)
                          st(i) == IF i = 1 THEN <<0, 0>> ELSE Rel(n, o[i - 1] + Len(d))
                          en(i) == IF i = Len(o) + 1 THEN L ELSE Rel(n, o[i]) IN
                      [i \in 1..Len(o) + 1 |-> [at |-> st(i), len |-> PMinus(en(i), st(i))]]
\* the tail of the replacement result, from the first occurrence on: relative start and bytes
RECURSIVE ReplFrom(_, _, _, _)
ReplFrom(w, d, r, i) == IF i + Len(d) > Len(w) THEN SubSeq(w, i + 1, Len(w))
                        ELSE IF SubSeq(w, i + 1, i + Len(d)) = d THEN r \o ReplFrom(w, d, r, i + Len(d)) ELSE <<w[i + 1]>> \o ReplFrom(w, d, r, i + 1)
\* length - n of the result, and its bytes behind n - k
BReplTail(f, t, d, r, k) == ReplFrom(Win(f, t, k), d, r, 0)
\* ---- codecs: the end of the result
EndOf(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
BEncTail(f, n, t) == EndOf(Enc(LastB(f, t, 30 + PMod(BLen(n, t), 3))), 40)
BHexTail(f, t) == HexEnc(LastB(f, t, 20))
BHexDecTail(f, t) == HexDec(LastB(f, t, 40))
BDecTail(f, t) == EndOf(Dec(LastB(f, t, 44)), 30)
BDecLen(n, t) == PMinus(P34(BLen(n, t)), <<0, Pads(t)>>)
=============================================================================
