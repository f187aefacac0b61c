------------------------------ MODULE ReaderMC ------------------------------
(* The reader as implemented: fill a buffer from the file (transfers may be *)
(* short), find the newline, seek behind it; a full buffer without newline  *)
(* is "too long" and the position is restored; the length query walks over  *)
(* the line in steps of its own buffer size and restores the position.      *)
(* Checked against LineReader for all contents over {x, newline} and all    *)
(* interleavings of reads with buffer sizes Bufs and length queries.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Bufs, Own, MaxOps
VARIABLES content, fpos, kpos, hist, lines, next, open, ok
vars == <<content, fpos, kpos, hist, lines, next, open, ok>>
View == <<content, fpos, ok, Len(hist)>>
A == INSTANCE LineReader
MinN(a, b) == IF a < b THEN a ELSE b
Contents == UNION { [1..n -> {10, 120}] : n \in 0..MaxLen }
MCInit == /\ content \in Contents /\ fpos = 0 /\ kpos = 0 /\ hist = <<>> /\ lines = A!Lines(content) /\ next = 0 /\ open = TRUE /\ ok = TRUE
\* result of a fill-and-scan at position p with buffer b: <<r, line, new position>>
Scan(p, b) == LET got == SubSeq(content, p + 1, MinN(Len(content), p + b))
                  nl == { i \in 1..Len(got) : got[i] = 10 } IN
   IF got = <<>> THEN <<-2, <<>>, p>>
   ELSE IF nl # {} THEN <<0, SubSeq(got, 1, A!Min(nl) - 1), p + A!Min(nl)>>
   ELSE IF Len(got) < b THEN <<0, got, p + Len(got) + 1>>
   ELSE <<-3, <<>>, p>>
RECURSIVE Walk(_, _)
Walk(p, acc) == LET s == Scan(p, Own) IN
   IF s[1] = -3 THEN Walk(p + Own, acc + Own)
   ELSE IF s[1] = 0 THEN acc + Len(s[2])
   ELSE IF acc > 0 THEN acc ELSE -1
Rd(b) == LET s == Scan(fpos, b) IN
   /\ fpos' = s[3] /\ hist' = Append(hist, "ru " \o ToString(b)) /\ UNCHANGED <<content, kpos>>
   /\ IF A!AtEnd THEN ok' = (ok /\ s[1] = -2) /\ UNCHANGED <<lines, next, open>>
      ELSE IF Len(A!Cur) < b THEN ok' = (ok /\ s[1] = 0 /\ s[2] = A!Cur) /\ next' = next + 1 /\ UNCHANGED <<lines, open>>
      ELSE ok' = (ok /\ s[1] = -3) /\ UNCHANGED <<lines, next, open>>
Nl == /\ hist' = Append(hist, "nl") /\ UNCHANGED <<content, fpos, kpos, lines, next, open>>
      /\ ok' = (ok /\ Walk(fpos, 0) = (IF A!AtEnd THEN -1 ELSE Len(A!Cur)))
Fin == Len(hist) = MaxOps /\ PrintT("@S" \o ToJson([c |-> content, o |-> hist])) /\ hist' = Append(hist, "end") /\ UNCHANGED <<content, fpos, kpos, lines, next, open, ok>>
MCNext == Fin \/ (Len(hist) < MaxOps /\ (Nl \/ \E b \in Bufs : Rd(b)))
Conforms == ok
=============================================================================
