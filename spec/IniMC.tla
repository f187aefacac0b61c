------------------------------- MODULE IniMC --------------------------------
(* The section scanner as implemented (one pass, startline = 0 meaning "not *)
(* found yet") against Ini, for all files up to MaxLines lines over Alph;   *)
(* enumeration of all sections of a name with next-section.  Prints every   *)
(* file.                                                                    *)
EXTENDS Ini, TLC, Json
CONSTANTS MaxLines
VARIABLES file, name, from, i, st, ct, pc, found
vars == <<file, name, from, i, st, ct, pc, found>>
Alph == { <<LB, 97, RB>>, <<LB, 97, 97, RB>>, <<LB, 98, RB, 32>>, <<>>, <<97, EQC, 49>>, <<97, 97, EQC, EQC, LB>>, <<97>> }
Names == { <<97>>, <<97, 97>>, <<98>> }
Files == UNION { [1..n -> Alph] : n \in 0..MaxLines }
MCInit == file \in Files /\ name \in Names /\ from = 0 /\ i = 0 /\ st = 0 /\ ct = 0 /\ pc = "scan" /\ found = <<>>
            /\ (name = <<97>> => PrintT("@S" \o ToJson(file)))
Scan == /\ pc = "scan" /\ i < Len(file) /\ UNCHANGED <<file, name, from, found>>
        /\ IF st = 0 /\ HeaderOf(file[i + 1], name) THEN st' = i + 1 /\ i' = i + 1 /\ UNCHANGED <<ct, pc>>
           ELSE IF st # 0 /\ IsHeader(file[i + 1]) THEN ct' = i - st /\ pc' = "done" /\ UNCHANGED <<i, st>>
           ELSE i' = i + 1 /\ UNCHANGED <<st, ct, pc>>
Eof == /\ pc = "scan" /\ i >= Len(file) /\ pc' = "done" /\ ct' = (IF st # 0 THEN Len(file) - st ELSE 0)
       /\ UNCHANGED <<file, name, from, i, st, found>>
More == /\ pc = "done" /\ st # 0 /\ found' = Append(found, <<st, ct>>) /\ from' = st + ct /\ i' = st + ct /\ st' = 0 /\ ct' = 0 /\ pc' = "scan"
        /\ UNCHANGED <<file, name>>
MCNext == Scan \/ Eof \/ More
OneOK == pc = "done" => <<st, ct>> = Section(file, name, from)
\* enumeration finds every section of that name, in order
AllOK == (pc = "done" /\ st = 0) => { found[k][1] - 1 : k \in 1..Len(found) } = { h \in 0..Len(file) - 1 : HeaderOf(file[h + 1], name) }
                                     /\ \A k \in 1..Len(found) - 1 : found[k][1] < found[k + 1][1]
=============================================================================
