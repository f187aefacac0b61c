------------------------------- MODULE ViewMC -------------------------------
(* A stringptr as the code keeps it: an offset and a size into a buffer     *)
(* with a terminator, cutting the tail by writing NUL into the buffer.      *)
(* Every history of head cuts, tail cuts and chomps shows the bytes an      *)
(* abstract string would have; every transition is printed as a script.     *)
EXTENDS Strings, TLC, Json
CONSTANTS Alpha, MaxS
Str(n) == UNION { [1..k -> Alpha] : k \in 0..n }
VARIABLES buf, o, sz, hist
mvars == <<buf, o, sz, hist>>
View == <<buf, o, sz, view>>
Cur == SubSeq(buf, o + 1, o + sz)
Do(x) == hist' = Append(hist, x) /\ PrintT("@S" \o ToJson(hist'))
MCInit == /\ SInit /\ \E s \in Str(MaxS) : buf = Append(s, 0) /\ o = 0 /\ sz = Len(s) /\ hist = << [op |-> "vset", s |-> s, n |-> 0] >>
Abs(V) == view' = V /\ UNCHANGED <<off, list, heap, kv, ptrs, strs, hashes>>
Start == Len(hist) = 1 /\ view # Cur /\ Abs(Cur) /\ UNCHANGED mvars
MShl(n) == /\ IF sz >= n THEN sz' = sz - n /\ buf' = [buf EXCEPT ![o + sz - n + 1] = 0] ELSE UNCHANGED <<sz, buf>>
           /\ Abs(IF n <= Len(view) THEN SubSeq(view, 1, Len(view) - n) ELSE view)
           /\ UNCHANGED o /\ Do([op |-> "shl", s |-> <<>>, n |-> n])
MShr(n) == /\ IF sz >= n THEN sz' = sz - n /\ o' = o + n ELSE UNCHANGED <<sz, o>>
           /\ Abs(IF n <= Len(view) THEN SubSeq(view, n + 1, Len(view)) ELSE view)
           /\ UNCHANGED buf /\ Do([op |-> "shr", s |-> <<>>, n |-> n])
RECURSIVE ChompBuf(_, _)
ChompBuf(b, z) == IF z > 0 /\ b[o + z] \in {CR, LF} THEN ChompBuf([b EXCEPT ![o + z] = 0], z - 1) ELSE <<b, z>>
MChomp == /\ LET x == ChompBuf(buf, sz) IN buf' = x[1] /\ sz' = x[2]
          /\ Abs(Chomped(view)) /\ UNCHANGED o /\ Do([op |-> "chomp", s |-> <<>>, n |-> 0])
MCNext == IF Len(hist) = 1 /\ view # Cur THEN Start
          ELSE MChomp \/ \E n \in 0..MaxS + 1 : n <= sz + 1 /\ (MShl(n) \/ MShr(n))
Same == (Len(hist) > 1 \/ view = Cur) => Cur = view
InBuf == o + sz < Len(buf) /\ buf[Len(buf)] = 0
=============================================================================
