------------------------------ MODULE SortedMC -----------------------------
(* The bisections of the implementation (hi/lo with unsigned indices,       *)
(* base/nel) as step-by-step operators, checked for every sorted list of up *)
(* to MaxLen keys out of Keys (with repetitions) and every key below,       *)
(* between, equal and above.  Each (list, operation) is printed as a script.*)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Keys
VARIABLES ks, pc, key, lo, hi, res, hist
vars == <<ks, pc, key, lo, hi, res, hist>>
View == <<ks, pc, key, lo, hi, res>>
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
SearchKeys == {k - 1 : k \in Keys} \cup Keys \cup {k + 1 : k \in Keys}
n == Len(ks)
MCInit == ks = <<>> /\ pc = "idle" /\ key = 0 /\ lo = 0 /\ hi = 0 /\ res = 0 /\ hist = <<>>
Emit(s) == PrintT("@S" \o ToJson(Append(hist, s)))
\* ---- sorted insert
StartIns(k) == /\ pc = "idle" /\ n < MaxLen /\ key' = k
               /\ hist' = Append(hist, "sins " \o ToString(k))
               /\ IF n = 0 THEN pc' = "put" /\ lo' = 0 /\ hi' = 0
                           ELSE pc' = "ins" /\ lo' = n - 1 /\ hi' = 0
               /\ UNCHANGED <<ks, res>> /\ Emit("sins " \o ToString(k))
StepIns == /\ pc = "ins"
           /\ LET c == hi + ((lo - hi) \div 2)
                  r == Cmp(key, ks[c + 1]) IN
              IF hi = lo THEN /\ lo' = (IF r > 0 THEN lo + 1 ELSE lo) /\ pc' = "put" /\ UNCHANGED hi
              ELSE LET lo1 == IF r < 0 THEN (IF c > 0 THEN c - 1 ELSE 0) ELSE IF r > 0 THEN lo ELSE c
                       hi1 == IF r < 0 THEN hi ELSE IF r > 0 THEN c + 1 ELSE c
                   IN lo' = lo1 /\ hi' = (IF hi1 > lo1 THEN lo1 ELSE hi1) /\ UNCHANGED pc
           /\ UNCHANGED <<ks, key, res, hist>>
Put == /\ pc = "put" /\ ks' = SubSeq(ks, 1, lo) \o <<key>> \o SubSeq(ks, lo + 1, n)
       /\ pc' = "idle" /\ key' = 0 /\ lo' = 0 /\ hi' = 0 /\ UNCHANGED <<res, hist>>
\* ---- binary search: lo = base, hi = nel
StartSrch(k) == /\ pc = "idle" /\ pc' = "srch" /\ key' = k /\ lo' = 0 /\ hi' = n /\ UNCHANGED <<ks, res, hist>>
                /\ Emit("srch " \o ToString(k))
StepSrch == /\ pc = "srch"
            /\ IF hi = 0 THEN res' = -1 /\ pc' = "found" /\ UNCHANGED <<lo, hi>>
               ELSE LET x == lo + hi \div 2
                        c == Cmp(key, ks[x + 1]) IN
                    IF c < 0 THEN hi' = hi \div 2 /\ UNCHANGED <<lo, pc, res>>
                    ELSE IF c > 0 THEN lo' = x + 1 /\ hi' = hi - (hi \div 2 + 1) /\ UNCHANGED <<pc, res>>
                    ELSE res' = x /\ pc' = "found" /\ UNCHANGED <<lo, hi>>
            /\ UNCHANGED <<ks, key, hist>>
Found == pc = "found" /\ pc' = "idle" /\ key' = 0 /\ lo' = 0 /\ hi' = 0 /\ res' = 0 /\ UNCHANGED <<ks, hist>>
MDelete(p) == /\ pc = "idle" /\ p < n /\ ks' = SubSeq(ks, 1, p) \o SubSeq(ks, p + 2, n)
              /\ hist' = Append(hist, "del " \o ToString(p)) /\ Emit("del " \o ToString(p))
              /\ UNCHANGED <<pc, key, lo, hi, res>>
MCNext == \/ \E k \in Keys : StartIns(k)
          \/ \E k \in SearchKeys : StartSrch(k)
          \/ StepIns \/ Put \/ StepSrch \/ Found
          \/ \E p \in 0..MaxLen - 1 : MDelete(p)
IsSorted == \A i \in 1..n - 1 : ks[i] <= ks[i + 1]
Bounds == /\ pc = "ins" => hi <= lo /\ lo < n
          /\ pc = "srch" => lo + hi <= n
          /\ pc = "put" => lo <= n
InsOK == pc = "put" => (\A i \in 1..n : i <= lo => ks[i] <= key) /\ (\A i \in 1..n : i > lo => key <= ks[i])
SrchOK == pc = "found" => IF res = -1 THEN \A i \in 1..n : ks[i] # key ELSE ks[res + 1] = key
\* every bisection step shrinks the interval
Progress == [][ (pc = "ins" /\ pc' = "ins") => (lo' - hi' < lo - hi) ]_vars
Shrinks  == [][ (pc = "srch" /\ pc' = "srch") => hi' < hi ]_vars
=============================================================================
