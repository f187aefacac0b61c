------------------------------ MODULE CodecMC -------------------------------
(* The decoder as a character automaton with a 24-bit accumulator and the   *)
(* encoder as a group loop, against the declarative definitions; all byte   *)
(* strings and all texts up to MaxLen over small alphabets, all buffer      *)
(* sizes.  Prints every text and byte string as a script.                   *)
EXTENDS Codec, TLC, Json
CONSTANTS Bytes, TextAlph, MaxBytes, MaxText
VARIABLES kind, src, size, i, acc, cnt, skip, out, room, st
vars == <<kind, src, size, i, acc, cnt, skip, out, room, st>>
Seqs(A, n) == UNION { [1..k -> A] : k \in 0..n }
MCInit == /\ \/ kind = "enc" /\ src \in Seqs(Bytes, MaxBytes) /\ size = EncLen(Len(src)) + 1
             \/ kind = "encs" /\ src \in { s \in Seqs(Bytes, MaxBytes) : \A k \in 1..Len(s) : s[k] # 0 } /\ size \in 0..EncLen(Len(src)) + 2
             \/ kind = "dec" /\ src \in Seqs(TextAlph, MaxText) /\ size \in {0, 1, 2, 3, 4, 6, 7, 10}
          /\ i = 1 /\ acc = 0 /\ cnt = 0 /\ skip = 0 /\ out = <<>> /\ room = size /\ st = "run"
          /\ PrintT("@S" \o ToJson(<<kind, src, size>>))
Same == UNCHANGED <<kind, src, size>>
\* encoder: one group per step
Group == LET a == src[i] b == At0(src, i + 1) c == At0(src, i + 2)
             n == a * 65536 + b * 256 + c
             k == IF i + 2 <= Len(src) THEN 2 ELSE IF i + 1 <= Len(src) THEN 1 ELSE 0 IN
         <<B64(n \div 262144), B64((n \div 4096) % 64), IF k > 0 THEN B64((n \div 64) % 64) ELSE EQ, IF k = 2 THEN B64(n % 64) ELSE EQ>>
EncStep == /\ kind \in {"enc", "encs"} /\ st = "run" /\ Same
           /\ IF i <= Len(src) /\ (kind = "enc" \/ room > 4)
              THEN out' = out \o Group /\ i' = i + 3 /\ room' = room - 4 /\ UNCHANGED <<acc, cnt, skip, st>>
              ELSE st' = (IF kind = "enc" \/ (room > 0 /\ i > Len(src)) THEN "ok" ELSE "fail") /\ UNCHANGED <<i, acc, cnt, skip, out, room>>
\* decoder: one character per step
Fail == st' = "fail" /\ UNCHANGED <<i, acc, cnt, skip, out, room>>
DecStep == /\ kind = "dec" /\ st = "run" /\ Same
           /\ IF size = 0 THEN Fail
              ELSE IF i > Len(src) THEN
                   IF cnt % 4 # 0 \/ room = 0 \/ Len(src) = 0 THEN Fail ELSE st' = "ok" /\ UNCHANGED <<i, acc, cnt, skip, out, room>>
              ELSE LET c == src[i] s2 == IF c = EQ THEN skip + 1 ELSE skip IN
                   IF s2 > 2 \/ (c # EQ /\ (skip > 0 \/ ~IsB64(c))) THEN Fail
                   ELSE LET n == acc * 64 + (IF c = EQ THEN 0 ELSE Val64(c)) IN
                        IF (cnt + 1) % 4 # 0 THEN acc' = n /\ cnt' = cnt + 1 /\ skip' = s2 /\ i' = i + 1 /\ UNCHANGED <<out, room, st>>
                        ELSE IF room < 3 THEN Fail
                        ELSE /\ out' = out \o SubSeq(<<n \div 65536, (n \div 256) % 256, n % 256>>, 1, 3 - s2)
                             /\ acc' = 0 /\ cnt' = cnt + 1 /\ skip' = s2 /\ i' = i + 1 /\ room' = room - 3 /\ UNCHANGED st
MCNext == EncStep \/ DecStep
EncExact == st = "ok" /\ kind # "dec" => out = Enc(src) /\ Len(out) < size + (IF kind = "enc" THEN 1 ELSE 0)
EncFails == kind = "encs" => (st = "fail" => size < EncLen(Len(src)) + 1) /\ (st = "ok" => size > EncLen(Len(src)))
DecExact == kind = "dec" => (st = "ok" => Valid64(src) /\ size >= DecBuf(src) /\ out = Dec(src)) /\ (st = "fail" => ~Valid64(src) \/ size < DecBuf(src))
RoundTrip == st = "ok" /\ kind = "enc" /\ src # <<>> => Valid64(out) /\ Dec(out) = src /\ HexDec(HexEnc(src)) = src
=============================================================================
