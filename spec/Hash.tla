-------------------------------- MODULE Hash --------------------------------
(* MD5 (RFC 1321), SHA-512 (FIPS 180-4), CRC-32/CRC-32C and RC4 over words  *)
(* of 16-bit limbs.                                                         *)
EXTENDS HashConst, Bitwise, SequencesExt
Pow2 == [n \in 0..16 |-> 2 ^ n]
N(k) == [i \in 1..k |-> i]
LXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Land(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
Lor(a, b) == [i \in 1..Len(a) |-> a[i] | b[i]]
Inv(a) == [i \in 1..Len(a) |-> 65535 - a[i]]
Zeros(n) == [i \in 1..n |-> 0]
\* ------------------------------------------------------------------- MD5
Add2(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
Rotl(x, n) == IF n >= 16 THEN LET k == n - 16 IN <<((x[2] * Pow2[k]) % 65536) + (x[1] \div Pow2[16 - k]), ((x[1] * Pow2[k]) % 65536) + (x[2] \div Pow2[16 - k])>>
              ELSE <<((x[1] * Pow2[n]) % 65536) + (x[2] \div Pow2[16 - n]), ((x[2] * Pow2[n]) % 65536) + (x[1] \div Pow2[16 - n])>>
MdF(i, b, c, d) == IF i <= 16 THEN Lor(Land(b, c), Land(Inv(b), d))
                   ELSE IF i <= 32 THEN Lor(Land(d, b), Land(Inv(d), c))
                   ELSE IF i <= 48 THEN LXor(b, LXor(c, d)) ELSE LXor(c, Lor(b, Inv(d)))
MdG(i) == LET j == i - 1 IN IF i <= 16 THEN j ELSE IF i <= 32 THEN (5 * j + 1) % 16 ELSE IF i <= 48 THEN (3 * j + 5) % 16 ELSE (7 * j) % 16
Le4(m, o) == <<m[o + 3] * 256 + m[o + 2], m[o + 1] * 256 + m[o]>>
MdStep(w, s, i) == <<s[4], Add2(s[2], Rotl(Add2(Add2(s[1], MdF(i, s[2], s[3], s[4])), Add2(MD5K[i], w[MdG(i) + 1])), MD5S[i])), s[2], s[3]>>
\* one block: 64 bytes of m from position o + 1
MdBlock(v, m, o) == LET w == [k \in 1..16 |-> Le4(m, o + 4 * k - 3)]
                        r == FoldLeft(LAMBDA s, i : MdStep(w, s, i), v, N(64)) IN
                    [k \in 1..4 |-> Add2(v[k], r[k])]
Blocks(F(_, _, _), v, m, bs) == FoldLeft(LAMBDA s, i : F(s, m, (i - 1) * bs), v, N(Len(m) \div bs))
\* byte counts are pairs <<multiple of 2^24, rest>>
Count(n, k) == LET x == n[2] + k IN <<n[1] + x \div 16777216, x % 16777216>>
\* bits of n bytes as eight bytes, least significant first
BitLen(n) == LET x == n[1] * 8 + n[2] \div 2097152 IN
             <<(n[2] % 32) * 8, (n[2] \div 32) % 256, (n[2] \div 8192) % 256, x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216, 0>>
MdPad(tail, n) == tail \o <<128>> \o Zeros((119 - (n[2] % 64)) % 64) \o BitLen(n)
MdBytes(v) == FlattenSeq([k \in 1..4 |-> <<v[k][2] % 256, v[k][2] \div 256, v[k][1] % 256, v[k][1] \div 256>>])
\* a context: chaining value, bytes not yet in a full block, bytes so far
Md0 == [v |-> MD5IV, t |-> <<>>, n |-> <<0, 0>>]
MdUpdate(c, b) == LET m == c.t \o b q == (Len(m) \div 64) * 64 IN [v |-> Blocks(MdBlock, c.v, SubSeq(m, 1, q), 64), t |-> SubSeq(m, q + 1, Len(m)), n |-> Count(c.n, Len(b))]
MdDigest(c) == MdBytes(Blocks(MdBlock, c.v, MdPad(c.t, c.n), 64))
\* --------------------------------------------------------------- SHA-512
Add4(a, b) == LET d == a[4] + b[4] c == a[3] + b[3] + (d \div 65536) e == a[2] + b[2] + (c \div 65536) IN
              <<(a[1] + b[1] + (e \div 65536)) % 65536, e % 65536, c % 65536, d % 65536>>
Rotr(x, n) == LET k == n \div 16 r == n % 16 q(i) == x[((i - 1 - k + 8) % 4) + 1] IN
              [i \in 1..4 |-> (q(i) \div Pow2[r]) + ((q(i + 3) * Pow2[16 - r]) % 65536)]
Shr(x, r) == [i \in 1..4 |-> (x[i] \div Pow2[r]) + (IF i = 1 THEN 0 ELSE (x[i - 1] * Pow2[16 - r]) % 65536)]
BS0(x) == LXor(Rotr(x, 28), LXor(Rotr(x, 34), Rotr(x, 39)))
BS1(x) == LXor(Rotr(x, 14), LXor(Rotr(x, 18), Rotr(x, 41)))
SS0(x) == LXor(Rotr(x, 1), LXor(Rotr(x, 8), Shr(x, 7)))
SS1(x) == LXor(Rotr(x, 19), LXor(Rotr(x, 61), Shr(x, 6)))
Ch(x, y, z) == LXor(Land(x, y), Land(Inv(x), z))
Maj(x, y, z) == LXor(Land(x, y), LXor(Land(x, z), Land(y, z)))
Be8(m, o) == <<m[o] * 256 + m[o + 1], m[o + 2] * 256 + m[o + 3], m[o + 4] * 256 + m[o + 5], m[o + 6] * 256 + m[o + 7]>>
ShaW(m, o) == FoldLeft(LAMBDA w, i : Append(w, Add4(Add4(SS1(w[i + 14]), w[i + 9]), Add4(SS0(w[i + 1]), w[i]))), [k \in 1..16 |-> Be8(m, o + 8 * k - 7)], N(64))
ShaStep(w, s, i) == LET t1 == Add4(Add4(s[8], BS1(s[5])), Add4(Ch(s[5], s[6], s[7]), Add4(SHAK[i], w[i]))) IN
                    <<Add4(t1, Add4(BS0(s[1]), Maj(s[1], s[2], s[3]))), s[1], s[2], s[3], Add4(s[4], t1), s[5], s[6], s[7]>>
ShaBlock(v, m, o) == LET w == ShaW(m, o) r == FoldLeft(LAMBDA s, i : ShaStep(w, s, i), v, N(80)) IN [k \in 1..8 |-> Add4(v[k], r[k])]
ShaPad(tail, n) == tail \o <<128>> \o Zeros((239 - (n[2] % 128)) % 128) \o Zeros(8) \o Reverse(BitLen(n))
ShaBytes(v) == FlattenSeq([k \in 1..8 |-> FlattenSeq([i \in 1..4 |-> <<v[k][i] \div 256, v[k][i] % 256>>])])
Sha0 == [v |-> SHAIV, t |-> <<>>, n |-> <<0, 0>>]
ShaUpdate(c, b) == LET m == c.t \o b q == (Len(m) \div 128) * 128 IN [v |-> Blocks(ShaBlock, c.v, SubSeq(m, 1, q), 128), t |-> SubSeq(m, q + 1, Len(m)), n |-> Count(c.n, Len(b))]
ShaDigest(c) == ShaBytes(Blocks(ShaBlock, c.v, ShaPad(c.t, c.n), 128))
\* ------------------------------------------------------------------- CRC
Half2(x) == <<x[1] \div 2, ((x[1] % 2) * 32768) + (x[2] \div 2)>>
PolyI == <<60856, 33568>>       \* 0xEDB88320 (reflected 0x04C11DB7)
PolyC == <<33526, 15224>>       \* 0x82F63B78 (reflected 0x1EDC6F41)
CrcBit(p, s) == IF s[2] % 2 = 1 THEN LXor(Half2(s), p) ELSE Half2(s)
CrcTab(p) == [b \in 0..255 |-> FoldLeft(LAMBDA s, i : CrcBit(p, s), <<0, b>>, N(8))]
TabI == CrcTab(PolyI)
TabC == CrcTab(PolyC)
Crc0 == <<65535, 65535>>
CrcByte(T, s, b) == LET x == T[(s[2] % 256) ^^ b] IN <<(s[1] \div 256) ^^ x[1], ((s[1] % 256) * 256 + (s[2] \div 256)) ^^ x[2]>>
CrcUpdate(T, s, bs) == FoldLeft(LAMBDA a, b : CrcByte(T, a, b), s, bs)
CrcFinal(s) == LET x == Inv(s) IN <<x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>>
\* the state after 2^e zero bytes: one zero byte as a linear map (the images of the 32 bits), squared e times
Bit(x, i) == IF i <= 16 THEN (x[2] \div Pow2[i - 1]) % 2 ELSE (x[1] \div Pow2[i - 17]) % 2
Apply(m, x) == FoldLeft(LAMBDA a, i : IF Bit(x, i) = 1 THEN LXor(a, m[i]) ELSE a, <<0, 0>>, N(32))
OneZero(T) == [i \in 1..32 |-> CrcByte(T, IF i <= 16 THEN <<0, Pow2[i - 1]>> ELSE <<Pow2[i - 17], 0>>, 0)]
CrcZeros(T, s, e) == Apply(FoldLeft(LAMBDA m, i : [k \in 1..32 |-> Apply(m, m[k])], OneZero(T), N(e)), s)
\* ------------------------------------------------------------------- RC4
Swap(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
Ksa(key) == FoldLeft(LAMBDA a, i : LET j == (a[2] + a[1][i - 1] + key[((i - 1) % Len(key)) + 1]) % 256 IN <<Swap(a[1], i - 1, j), j>>, <<[x \in 0..255 |-> x], 0>>, N(256))[1]
Rc4(key, d) == FoldLeft(LAMBDA a, b : LET y == (a[2] + 1) % 256 z == (a[3] + a[1][y]) % 256 s == Swap(a[1], y, z) IN
                            <<s, y, z, Append(a[4], b ^^ s[(s[y] + s[z]) % 256])>>, <<Ksa(key), 0, 0, <<>>>>, d)[4]
\* the last k of the first n bytes of the key stream
Rc4Tail(key, n, k) == FoldLeft(LAMBDA a, i : LET y == (a[2] + 1) % 256 z == (a[3] + a[1][y]) % 256 s == Swap(a[1], y, z) IN
                            <<s, y, z, IF i > n - k THEN Append(a[4], s[(s[y] + s[z]) % 256]) ELSE a[4]>>, <<Ksa(key), 0, 0, <<>>>>, N(n))[4]
=============================================================================
