-------------------------------- MODULE OptMC --------------------------------
(* The argument scan (skip dashes, measure up to '=', compare) against the  *)
(* definition, for all argument vectors over Words x all names.             *)
EXTENDS Opt, TLC, Json
CONSTANTS Alph, WordLen, MaxArgs
VARIABLES args, o, i, st, res, flag
vars == <<args, o, i, st, res, flag>>
Words == UNION { [1..k -> Alph] : k \in 0..WordLen }
Interesting == { w \in Words : w = <<>> \/ w[1] = DASH \/ Len(w) = 1 }
Names == { w \in UNION { [1..k -> Alph] : k \in 1..2 } : w[1] # DASH /\ \A j \in 1..Len(w) : w[j] # EQ }
MCInit == /\ args \in UNION { [1..k -> Interesting] : k \in 0..MaxArgs } /\ o \in Names /\ i = 1 /\ st = "run" /\ res = <<0, 0>> /\ flag = FALSE
          /\ PrintT("@S" \o ToJson(<<args, o>>))
EqPos(s, k) == IF \E j \in k..Len(s) : s[j] = EQ THEN CHOOSE j \in k..Len(s) : s[j] = EQ /\ \A m \in k..j - 1 : s[m] # EQ ELSE 0
Step == /\ st = "run" /\ i <= Len(args) /\ i' = i + 1 /\ UNCHANGED <<args, o>>
        /\ LET s == args[i] IN
           IF s = <<>> \/ s[1] # DASH THEN UNCHANGED <<st, res, flag>>
           ELSE LET k == IF Len(o) > 1 /\ Len(s) > 1 /\ s[2] = DASH THEN 3 ELSE 2
                    e == EqPos(s, k)
                    name == IF e = 0 THEN <<>> ELSE SubSeq(s, k, e - 1)
                    rest == SubSeq(s, k, Len(s)) IN
                /\ flag' = (flag \/ rest = o)
                /\ res' = (IF res # <<0, 0>> THEN res ELSE IF e > 0 /\ name = o THEN <<i, e>> ELSE IF name = <<>> /\ rest = o /\ i < Len(args) THEN <<i + 1, 0>> ELSE res)
                /\ UNCHANGED st
End == st = "run" /\ i > Len(args) /\ st' = "done" /\ UNCHANGED <<args, o, i, res, flag>>
MCNext == Step \/ End
Exact == st = "done" => res = Get(args, o) /\ flag = Flag(args, o)
=============================================================================
