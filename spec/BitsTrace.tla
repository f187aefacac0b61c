------------------------------ MODULE BitsTrace -----------------------------
(* C33: the array is a function from bit index to 0/1, in bytes of 8 bits,  *)
(* least significant bit first.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
VARIABLES mem
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
TInit == TraceInit /\ mem = <<>>
Bit(m, i) == (m[(i \div 8) + 1] \div P2[(i % 8) + 1]) % 2
Put(m, i, v) == [m EXCEPT ![(i \div 8) + 1] = @ + (v - Bit(m, i)) * P2[(i % 8) + 1]]
New == IsEvent("new") /\ ev.bytes = (ev.n + 7) \div 8 /\ Len(ev.m) = ev.bytes /\ mem' = ev.m
Set == IsEvent("set") /\ mem' = Put(mem, ev.i, ev.v) /\ ev.m = mem'
Get == IsEvent("get") /\ ev.r = Bit(mem, ev.i) /\ ev.m = mem /\ UNCHANGED mem
GetS == IsEvent("gets") /\ ev.r = Bit(mem, (ev.i \div 8) * 8 + 7 - (ev.i % 8)) /\ ev.m = mem /\ UNCHANGED mem
\* sizes of large arrays, as limbs: 8 * r >= n > 8 * (r - 1)
Lsl3(w) == LET a == w[4] * 8 b == w[3] * 8 + (a \div 65536) c == w[2] * 8 + (b \div 65536) IN <<w[1] * 8 + (c \div 65536), c % 65536, b % 65536, a % 65536>>
Sub(x, y) == LET d4 == x[4] - y[4] b4 == IF d4 < 0 THEN 1 ELSE 0
                 d3 == x[3] - y[3] - b4 b3 == IF d3 < 0 THEN 1 ELSE 0
                 d2 == x[2] - y[2] - b3 b2 == IF d2 < 0 THEN 1 ELSE 0 IN <<x[1] - y[1] - b2, d2 % 65536, d3 % 65536, d4 % 65536>>
Big == IsEvent("big") /\ (LET d == Sub(Lsl3(ev.r), ev.n) IN d[1] = 0 /\ d[2] = 0 /\ d[3] = 0 /\ d[4] \in 0..7) /\ UNCHANGED mem
\* one bit of a huge array which is zero otherwise; the index is hi * 2^27 + lo; nz: the bytes not zero, as <<offset div 2^24, offset mod 2^24, value>>
Far == /\ IsEvent("far") /\ ev.nz = (IF ev.v = 1 THEN << <<ev.hi, ev.lo \div 8, P2[(ev.lo % 8) + 1]>> >> ELSE <<>>)
       /\ ev.get = ev.v /\ ev.getz = ev.v /\ ev.gets = 0 /\ ev.low = (IF ev.low32 = 1 THEN ev.v ELSE 0) /\ UNCHANGED mem
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Swap == IsEvent("swap") /\ ev.r = Rev(ev.x) /\ ev.rr = ev.x /\ UNCHANGED mem
\* runs of 16-bit values: r[k] is the swap of from + k - 1
Swap16 == IsEvent("swap16") /\ (\A k \in 1..Len(ev.r) : LET x == ev.from + k - 1 IN ev.r[k] = (x % 256) * 256 + (x \div 256)) /\ Len(ev.r) = ev.n /\ UNCHANGED mem
\* numbers in little endian byte order; x most significant byte first
Le == IsEvent("le") /\ ev.b = Rev(ev.x) /\ UNCHANGED mem
\* a byte from its bits: m most significant first, l least significant first
RECURSIVE Val(_, _)
Val(b, k) == IF k = 0 THEN 0 ELSE 2 * Val(b, k - 1) + b[k]
Byte == IsEvent("byte") /\ ev.bm = Val(ev.b, 8) /\ ev.bl = Val(Rev(ev.b), 8) /\ ev.em = ev.bm /\ ev.el = ev.bl /\ UNCHANGED mem
TNext == (IsEvent("S") /\ mem' = <<>>) \/ New \/ Set \/ Get \/ GetS \/ Big \/ Swap \/ Swap16 \/ Le \/ Byte \/ Far \/ (Done /\ UNCHANGED mem)
=============================================================================
