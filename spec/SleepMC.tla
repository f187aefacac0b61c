------------------------------ MODULE SleepMC -------------------------------
(* The sleep loop: request the whole duration, after an interruption request *)
(* what remained.  Interruptions come at any moment, any number of times     *)
(* (bounded), other errors too.  A second has SEC units, a unit SUB ticks.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxDur, SEC, SUB, MaxInt
VARIABLES dur, req, slept, pc, plan, n
vars == <<dur, req, slept, pc, plan, n>>
B == SEC * SUB
Ticks(r) == r[1] * B + r[2]
Init == /\ dur \in -2..MaxDur /\ req = <<IF dur < 0 THEN -((-dur) \div SEC) ELSE dur \div SEC, (IF dur < 0 THEN -((-dur) % SEC) ELSE dur % SEC) * SUB>>
        /\ slept = 0 /\ pc = "call" /\ plan = <<>> /\ n = 0
Valid == req[1] >= 0 /\ req[2] \in 0..B - 1
Full == pc = "call" /\ Valid /\ slept' = slept + Ticks(req) /\ pc' = "ok" /\ UNCHANGED <<dur, req, plan, n>>
Interrupted == /\ pc = "call" /\ Valid /\ n < MaxInt
               /\ \E s \in 0..Ticks(req) : /\ slept' = slept + s /\ req' = <<(Ticks(req) - s) \div B, (Ticks(req) - s) % B>> /\ plan' = Append(plan, s)
               /\ n' = n + 1 /\ UNCHANGED <<dur, pc>>
Error == pc = "call" /\ pc' = "err" /\ plan' = Append(plan, -1) /\ UNCHANGED <<dur, req, slept, n>>
Next == Full \/ Interrupted \/ Error
Spec == Init /\ [][Next]_vars /\ WF_vars(Full \/ Error)
FullSleep == pc = "ok" => dur >= 0 /\ slept = dur * SUB
NeverLonger == dur >= 0 => slept <= dur * SUB
Ends == <>(pc # "call")
Emit == pc # "call" => PrintT("@S" \o ToJson([d |-> dur, p |-> plan]))
=============================================================================
