------------------------------- MODULE PathMC -------------------------------
(* The one-pass character scanner of the implementation against Norm, for   *)
(* every text up to MaxLen over Chars.  Properties of Norm itself: fixed    *)
(* point, canonical form, Diff inverts concatenation.  Prints every text.   *)
EXTENDS Path, TLC, Json
CONSTANTS MaxLen, Chars
VARIABLES path, i, out, st
vars == <<path, i, out, st>>
At(j) == IF j >= 0 /\ j < Len(path) THEN path[j + 1] ELSE 0
MCInit == path \in UNION { [1..n -> Chars] : n \in 0..MaxLen } /\ i = 0 /\ out = <<>> /\ st = "run" /\ PrintT("@S" \o ToJson(path))
LastC(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
Go(o, j) == out' = o /\ i' = j /\ UNCHANGED <<path, st>>
Fail == st' = "fail" /\ UNCHANGED <<path, i, out>>
SkipTo == CHOOSE j \in i..Len(path) - 1 : (\A k \in i..j : At(k) = SL) /\ At(j + 1) # SL
Copy == Go(Append(out, At(i)), i + 1)
DotDot == LET o == SubSeq(out, 1, Len(out) - 1) t == After(o, SL) IN IF t = -1 THEN Fail ELSE Go(SubSeq(o, 1, t), i + 3)
Step == /\ st = "run" /\ i < Len(path)
        /\ IF path[1] # SL THEN Fail
           ELSE IF At(i) = SL THEN Go(IF LastC(out) # SL THEN Append(out, SL) ELSE out, SkipTo + 1)
           ELSE IF At(i) = DOT /\ At(i - 1) = SL /\ LastC(out) = SL THEN
                IF At(i + 1) = DOT /\ At(i + 2) \in {0, SL} THEN DotDot
                ELSE IF At(i + 1) = SL THEN Go(out, i + 2)
                ELSE IF At(i + 1) = 0 THEN Go(out, i + 1) ELSE Copy
           ELSE Copy
End == st = "run" /\ i >= Len(path) /\ st' = (IF path = <<>> THEN "fail" ELSE "ok")
       /\ out' = (IF Len(out) > 1 /\ LastC(out) = SL THEN SubSeq(out, 1, Len(out) - 1) ELSE out) /\ UNCHANGED <<path, i>>
MCNext == Step \/ End
ScanOK == (st = "fail" => Norm(path) = FAIL) /\ (st = "ok" => out = Norm(path))
Canon == st = "ok" => /\ Norm(out) = out /\ (Len(out) > 1 => LastC(out) # SL)
                      /\ \A k \in 1..Len(out) - 1 : ~(out[k] = SL /\ out[k + 1] = SL)
                      /\ Diff(out, out \o <<SL, 98>>) = <<SL, 98>> /\ Diff(<<SL>>, out) = out
=============================================================================
