------------------------------ MODULE LoggerMC ------------------------------
(* The logger as a process that writes piece by piece: the argument list is *)
(* walked up to its end marker, numbers are converted backwards into a      *)
(* buffer after being widened according to their type, and every write may  *)
(* change the current error.  What arrives on the descriptor is the text of *)
(* the call.  Words have 2*H values, "int" is half as wide.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS H, MaxArgs, Errs
VARIABLES call, todo, err, saved, out, pc
vars == <<call, todo, err, saved, out, pc>>
W == 2 * H
Q == H \div 8                  \* half range of the narrow type (2 * Q values)
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Dig(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o Dig(-n) ELSE Dig(n)
Args == [t : {0, 1}, v : {0, 1, 2}] \cup [t : {3, 4}, v : {0, 1, Q - 1, Q, 2 * Q - 1}] \cup [t : {5, 6}, v : {0, 9, 10, H - 1, H, W - 1}]
Str(v) == IF v = 0 THEN <<>> ELSE [i \in 1..v |-> 96 + i]
Value(a) == IF a.t = 3 THEN (IF a.v >= Q THEN a.v - 2 * Q ELSE a.v) ELSE IF a.t = 5 THEN (IF a.v >= H THEN a.v - W ELSE a.v) ELSE a.v
Text(a) == IF a.t \in {0, 1} THEN Str(a.v) ELSE Dec(Value(a))
RECURSIVE All(_)
All(as) == IF as = <<>> THEN <<>> ELSE Text(as[1]) \o All(Tail(as))
Lists == UNION { [1..k -> Args] : k \in 0..MaxArgs }
MCInit == /\ err \in Errs /\ out = <<>> /\ saved = err /\ pc = "run"
          /\ \/ \E as \in Lists : call = <<"put", as>> /\ todo = as
             \/ \E s \in {0, 1, 2} : call = <<"error", <<[t |-> 1, v |-> s]>>, err>> /\ todo = <<[t |-> 1, v |-> s]>>
\* a write of b to the descriptor; afterwards errno may be anything
Write(b) == out' = out \o b /\ err' \in Errs
\* widen to a word as the C conversions do, then convert it with the sign flag
Widened(a) == IF a.t = 3 /\ a.v >= Q THEN W - 2 * Q + a.v ELSE a.v
RECURSIVE Back(_, _)
Back(n, buf) == IF n < 10 THEN <<48 + n>> \o buf ELSE Back(n \div 10, <<48 + (n % 10)>> \o buf)
Conv(w, sg) == IF sg /\ w >= H THEN <<45>> \o Back(W - w, <<>>) ELSE Back(w, <<>>)
Step == /\ pc = "run" /\ todo # <<>>
        /\ LET a == Head(todo) IN IF a.t \in {0, 1} THEN (IF a.v = 0 THEN UNCHANGED <<out, err>> ELSE Write(Str(a.v))) ELSE Write(Conv(Widened(a), a.t \in {3, 5}))
        /\ todo' = Tail(todo) /\ UNCHANGED <<call, saved, pc>>
Last == /\ pc = "run" /\ todo = <<>> /\ pc' = "done"
        /\ Write(IF call[1] = "put" THEN <<10>> ELSE <<58, 32, saved, 10>>) /\ UNCHANGED <<call, todo, saved>>
MCNext == Step \/ Last
Exact == pc = "done" => out = (IF call[1] = "put" THEN All(call[2]) \o <<10>> ELSE All(call[2]) \o <<58, 32, call[3], 10>>)
InOrder == pc = "run" /\ call[1] = "put" => out \o All(todo) = All(call[2])
Emit == (pc = "done" /\ call[1] = "put") => PrintT("@S" \o ToJson(call[2]))
=============================================================================
