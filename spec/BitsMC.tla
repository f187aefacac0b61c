------------------------------- MODULE BitsMC -------------------------------
(* C33.  A bit array as bytes of CB bits changed with or / and-not masks,   *)
(* against the array of bits; and byte swapping written with shifts and     *)
(* masks against reversing the bytes.                                       *)
EXTENDS Integers, Sequences, TLC, Json, Bitwise
CONSTANTS CB, N, MaxOps
VARIABLES mem, bits, hist
vars == <<mem, bits, hist>>
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Size(n) == (n \div CB) + (IF n % CB # 0 THEN 1 ELSE 0)
Bytes == Size(N)
Bit(b, i) == (b \div P2(i)) % 2
BitsOf(m) == [i \in 0..CB * Bytes - 1 |-> Bit(m[(i \div CB) + 1], i % CB)]
Patterns == { 0, P2(CB) - 1, 2 }
MCInit == /\ \E p \in Patterns : mem = [k \in 1..Bytes |-> p]
          /\ bits = BitsOf(mem) /\ hist = <<>>
SetTrue(y) == mem' = [mem EXCEPT ![(y \div CB) + 1] = @ | P2(y % CB)] /\ bits' = [bits EXCEPT ![y] = 1]
SetFalse(y) == mem' = [mem EXCEPT ![(y \div CB) + 1] = @ & (P2(CB) - 1 - P2(y % CB))] /\ bits' = [bits EXCEPT ![y] = 0]
MCNext == /\ Len(hist) < MaxOps
          /\ \E y \in 0..N - 1 : \/ SetTrue(y) /\ hist' = Append(hist, <<y, 1>>)
                                 \/ SetFalse(y) /\ hist' = Append(hist, <<y, 0>>)
View == <<mem, bits, Len(hist)>>
Same == bits = BitsOf(mem)
Get(y) == IF (mem[(y \div CB) + 1] & P2(y % CB)) # 0 THEN 1 ELSE 0
GetSwapped(y) == Get(((y \div CB) * CB) + ((CB - 1) - (y % CB)))
Reads == \A y \in 0..N - 1 : Get(y) = bits[y]
Mirror == \A y \in 0..CB * Bytes - 1 : GetSwapped(y) = bits[(y \div CB) * CB + (CB - 1 - (y % CB))]
Holds == Size(N) * CB >= N /\ (Size(N) - 1) * CB < N
Unchanged == [][\E y \in 0..N - 1 : \A i \in DOMAIN bits : i # y => bits'[i] = bits[i]]_vars
\* byte swapping, bytes of 2 bits
Sw16(x) == ((x & 3) * 4) | ((x & 12) \div 4)
Sw32(x) == ((x & 192) \div 64) | ((x & 48) \div 4) | ((x & 12) * 4) | ((x & 3) * 64)
Rev(x, n) == LET d(i) == (x \div P2(2 * i)) % 4 IN
             (IF n >= 1 THEN d(0) * P2(2 * (n - 1)) ELSE 0) + (IF n >= 2 THEN d(1) * P2(2 * (n - 2)) ELSE 0) +
             (IF n >= 3 THEN d(2) * P2(2 * (n - 3)) ELSE 0) + (IF n >= 4 THEN d(3) ELSE 0)
Swaps == hist = <<>> => /\ \A x \in 0..15 : Sw16(x) = Rev(x, 2) /\ Sw16(Sw16(x)) = x
                        /\ \A x \in 0..255 : Sw32(x) = Rev(x, 4) /\ Sw32(Sw32(x)) = x
                        /\ \A hi, lo \in {0, 1, 2, 3, 64, 128, 228, 255} : <<Sw32(lo), Sw32(hi)>> = <<Rev(lo, 4), Rev(hi, 4)>>
Emit == Len(hist) = MaxOps => PrintT("@S" \o ToJson(hist))
=============================================================================
