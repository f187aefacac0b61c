------------------------------ MODULE SplitMC -------------------------------
(* The scan of stringptr_splits / stringptr_splitc as it runs: a position, *)
(* the start of the current piece, the list so far, writing NUL at every   *)
(* cut.  For every string and delimiter within the bounds the finished     *)
(* list is the greedy leftmost split, joins back to the input, and every   *)
(* piece is terminated in place.  Every (string, delimiter) is printed.    *)
EXTENDS Strings, TLC, Json
CONSTANTS Alpha, MaxS, MaxD
Str(n) == UNION { [1..k -> Alpha] : k \in 0..n }
VARIABLES src, del, buf, i, start, out, done
mvars == <<src, del, buf, i, start, out, done>>
MCInit == /\ src \in Str(MaxS) /\ del \in Str(MaxD) \ {<<>>} /\ buf = Append(src, 99)
          /\ i = 0 /\ start = 0 /\ out = <<>> /\ done = FALSE /\ SInit
          /\ PrintT("@S" \o ToJson([s |-> src, d |-> del]))
HereBuf == i + Len(del) <= Len(src) /\ SubSeq(buf, i + 1, i + Len(del)) = del
MCNext == /\ ~done /\ UNCHANGED <<src, del>> /\ Keep
          /\ IF i > Len(src) THEN done' = TRUE /\ UNCHANGED <<buf, i, start, out>>
             ELSE IF i = Len(src) \/ HereBuf
             THEN /\ out' = Append(out, <<start, i - start>>) /\ start' = i + Len(del) /\ buf' = [buf EXCEPT ![i + 1] = 0]
                  /\ i' = i + Len(del) /\ UNCHANGED done
             ELSE i' = i + 1 /\ UNCHANGED <<buf, start, out, done>>
Piece(k) == SubSeq(buf, out[k][1] + 1, out[k][1] + out[k][2])
Pieces == [k \in 1..Len(out) |-> Piece(k)]
Correct == done => /\ Pieces = Bytes(Split(src, del))
                   /\ Join(Pieces, del) = src
                   /\ IsSplit(src, del, Pieces, [k \in 1..Len(out) |-> out[k][1]])
                   /\ \A k \in 1..Len(out) : buf[out[k][1] + out[k][2] + 1] = 0
\* declarative: the cuts are the greedy non-overlapping occurrences
Cutset == { out[k][1] + out[k][2] : k \in 1..Len(out) - 1 }
Greedy == done => /\ \A c \in Cutset : Occurs(src, del, c)
                  /\ \A c, e \in Cutset : c < e => e >= c + Len(del)
                  /\ \A p \in 0..Len(src) : Occurs(src, del, p) => \E c \in Cutset : c <= p /\ p < c + Len(del)
=============================================================================
