------------------------------ MODULE StdioMC ------------------------------
(* A program that prints through the replacement: every call renders into a *)
(* buffer on the stack and hands it to the system in one or two writes; the *)
(* process may die between any two steps.  Compared with stdio-like         *)
(* buffering (Buffered), which loses and reorders text.                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxCalls, Texts, Buffered
VARIABLES todo, done, files, bufs, shared, dead, hist
vars == <<todo, done, files, bufs, shared, dead, hist>>
File(fd) == IF shared THEN 1 ELSE fd
Calls == [fd : {1, 2}, n : Texts, nl : {0, 1}]
MCInit == todo = <<>> /\ done = <<>> /\ files = <<<<>>, <<>>>> /\ bufs = <<<<>>, <<>>>> /\ shared \in BOOLEAN /\ dead = FALSE /\ hist = <<>>
\* call number k writes the value k, n times, and 0 for the newline of puts
Text(k, c) == [i \in 1..c.n |-> k] 
Put(fd, t) == IF Buffered THEN bufs' = [bufs EXCEPT ![fd] = @ \o t] /\ UNCHANGED files
              ELSE files' = [files EXCEPT ![File(fd)] = @ \o t] /\ UNCHANGED bufs
Call == /\ ~dead /\ todo = <<>> /\ Len(hist) < MaxCalls
        /\ \E c \in Calls : LET k == Len(hist) + 1 IN
             /\ hist' = Append(hist, c) /\ Put(c.fd, Text(k, c))
             /\ todo' = (IF c.nl = 1 THEN <<c.fd>> ELSE <<>>)
             /\ done' = Append(done, <<File(c.fd), Text(k, c)>>)
        /\ UNCHANGED <<shared, dead>>
NewLine == /\ ~dead /\ todo # <<>> /\ Put(todo[1], <<0>>) /\ todo' = <<>> /\ done' = Append(done, <<File(todo[1]), <<0>>>>) /\ UNCHANGED <<shared, dead, hist>>
Flush == Buffered /\ ~dead /\ \E fd \in {1, 2} : bufs[fd] # <<>> /\ files' = [files EXCEPT ![File(fd)] = @ \o bufs[fd]] /\ bufs' = [bufs EXCEPT ![fd] = <<>>] /\ UNCHANGED <<todo, done, shared, dead, hist>>
Die == ~dead /\ dead' = TRUE /\ UNCHANGED <<todo, done, files, bufs, shared, hist>>
MCNext == Call \/ NewLine \/ Flush \/ Die
RECURSIVE Of(_, _)
Of(d, i) == IF d = <<>> THEN <<>> ELSE (IF d[1][1] = i THEN d[1][2] ELSE <<>>) \o Of(SubSeq(d, 2, Len(d)), i)
\* at every moment, and so at every death, the files hold the pieces so far, in order
InOrder == \A i \in 1..2 : files[i] = Of(done, i)
Emit == (dead /\ todo = <<>>) => PrintT("@S" \o ToJson([h |-> hist, s |-> IF shared THEN 1 ELSE 0]))
=============================================================================
