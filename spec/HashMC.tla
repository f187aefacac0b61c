------------------------------- MODULE HashMC -------------------------------
(* Streaming: blocks of B symbols, a length field of L symbols, an end mark.*)
(* Two implementation-shaped machines against the definition "the blocks of *)
(* the padded message": (a) every update is collected in a block buffer at  *)
(* position count mod B; the end works on a copy; (b) whole blocks are      *)
(* taken straight from the caller's data, the rest of the last chunk is     *)
(* kept for the end, which has room for two blocks.  Digests may be taken   *)
(* in between for (a).  Prints the chunk sequences.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS B, L, MaxLen, MaxChunks
VARIABLES kind, msg, chunks, buf, count, fed, res, st
vars == <<kind, msg, chunks, buf, count, fed, res, st>>
Sym(i) == 10 + i
Zer(n) == [i \in 1..n |-> 0]
\* mark 1, zeros, length as L symbols (value in the last one)
Pad(m) == m \o <<1>> \o Zer((2 * B - L - 1 - (Len(m) % B)) % B) \o Zer(L - 1) \o <<-1 - Len(m)>>
RECURSIVE Cut(_)
Cut(m) == IF Len(m) < B THEN <<>> ELSE <<SubSeq(m, 1, B)>> \o Cut(SubSeq(m, B + 1, Len(m)))
MCInit == /\ kind \in {"a", "b"} /\ msg = <<>> /\ chunks = <<>> /\ buf = (IF kind = "a" THEN Zer(B) ELSE Zer(2 * B)) /\ count = 0 /\ fed = <<>> /\ res = <<>> /\ st = "run"
\* machine a: copy piecewise
RECURSIVE UpdA(_, _, _, _, _)
UpdA(bf, cn, fd, d, n) ==       \* d: remaining data
  IF d = <<>> THEN <<bf, cn, fd>>
  ELSE LET p == cn % B  c == IF B - p > Len(d) THEN Len(d) ELSE B - p
           b2 == [i \in 1..B |-> IF i > p /\ i <= p + c THEN d[i - p] ELSE bf[i]] IN
       UpdA(b2, cn + c, IF p + c = B THEN Append(fd, b2) ELSE fd, SubSeq(d, c + 1, Len(d)), n + 1)
Upd(n) == LET d == [i \in 1..n |-> Sym(Len(msg) + i)] IN
  /\ st = "run" /\ Len(chunks) < MaxChunks /\ Len(msg) + n <= MaxLen
  /\ msg' = msg \o d /\ chunks' = Append(chunks, n) /\ UNCHANGED <<kind, st, res>>
  /\ IF kind = "a" THEN LET r == UpdA(buf, count, fed, d, 0) IN buf' = r[1] /\ count' = r[2] /\ fed' = r[3]
     ELSE /\ count % B = 0       \* only whole blocks before
          /\ fed' = fed \o Cut(d) /\ count' = count + n
          /\ buf' = [i \in 1..2 * B |-> IF i <= n % B THEN d[n - (n % B) + i] ELSE buf[i]]
EndA == LET p == (count % B) + 1
            b1 == [i \in 1..B |-> IF i < p THEN buf[i] ELSE IF i = p THEN 1 ELSE 0] IN
        IF p > B - L THEN fed \o <<b1, Zer(B - 1) \o <<-1 - count>>>>
        ELSE Append(fed, [b1 EXCEPT ![B] = -1 - count])
EndB == LET p == (count % B) + 1  n == IF p <= B - L THEN B ELSE 2 * B
            x == [i \in 1..n |-> IF i = n THEN -1 - count ELSE IF i = p THEN 1 ELSE buf[i]] IN fed \o Cut(x)
End == /\ st = "run" /\ res' = (IF kind = "a" THEN EndA ELSE EndB) /\ st' = (IF kind = "a" THEN "mid" ELSE "end")
       /\ UNCHANGED <<kind, msg, chunks, buf, count, fed>> /\ PrintT("@S" \o ToJson(<<kind, chunks>>))
Resume == st = "mid" /\ st' = "run" /\ res' = <<>> /\ UNCHANGED <<kind, msg, chunks, buf, count, fed>>
MCNext == (\E n \in 0..MaxLen : Upd(n)) \/ End \/ Resume
Standard == st # "run" => res = Cut(Pad(msg))
=============================================================================
