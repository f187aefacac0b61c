----------------------------- MODULE TransferMC -----------------------------
(* The transfer loops of load and save, chunk by chunk, against every       *)
(* pattern of short transfers, errors and early end of file.  Safety: what  *)
(* was transferred is always a prefix; liveness: the loop ends.  Prints the *)
(* outcome plans (units of one model chunk).                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Size, Chunk, Reading, MaxPlan
VARIABLES pos, out, plan, pc
vars == <<pos, out, plan, pc>>
Content == [i \in 1..Size |-> i]
Ask == IF Size - pos > Chunk THEN Chunk ELSE Size - pos
MCInit == pos = 0 /\ out = <<>> /\ plan = <<>> /\ pc = "loop"
Xfer(k) == /\ out' = out \o SubSeq(Content, pos + 1, pos + k) /\ pos' = pos + k /\ pc' = "loop"
Step == /\ pc = "loop" /\ pos < Size
        /\ \/ \E k \in 1..Ask : (k = Ask \/ Len(plan) < MaxPlan) /\ Xfer(k) /\ plan' = Append(plan, k)
           \/ Len(plan) < MaxPlan /\ plan' = Append(plan, -5) /\ pc' = "error" /\ UNCHANGED <<pos, out>>
           \/ Reading /\ Len(plan) < MaxPlan /\ plan' = Append(plan, 0) /\ pc' = "eof" /\ UNCHANGED <<pos, out>>
End == pc = "loop" /\ pos = Size /\ pc' = "done" /\ UNCHANGED <<pos, out, plan>>
Tell == pc \in {"done", "error", "eof"} /\ pc' = "told" /\ PrintT("@S" \o ToJson(plan)) /\ UNCHANGED <<pos, out, plan>>
MCNext == Step \/ End \/ Tell
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
PrefixOK == out = SubSeq(Content, 1, pos)
Complete == pc = "done" => out = Content
Ends == <>(pc = "told")
=============================================================================
