------------------------------- MODULE TimeMC -------------------------------
(* The closed calendar formula against counting days one by one, and the    *)
(* borrow arithmetic of time differences against plain subtraction.         *)
EXTENDS Time, TLC
CONSTANTS Years, Count, Base, Max
VARIABLES day, y, m, d
vars == <<day, y, m, d>>
Leap(x) == (x % 4 = 0 /\ x % 100 # 0) \/ x % 400 = 0
Days(x, k) == IF k = 2 THEN (IF Leap(x) THEN 29 ELSE 28) ELSE IF k \in {4, 6, 9, 11} THEN 30 ELSE 31
\* day number of January 1st, by counting leap years
Jan1(x) == 365 * (x - 1970) + ((x - 1) \div 4 - 492) - ((x - 1) \div 100 - 19) + ((x - 1) \div 400 - 4)
MCInit == \E x \in Years : day = Jan1(x) /\ y = x /\ m = 1 /\ d = 1
MCNext == /\ \E x \in Years : day - Jan1(x) \in 0..Count - 1
          /\ day' = day + 1
          /\ IF d < Days(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
             ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
Calendar == Civil(day) = <<y, m, d>>
\* timersub / field-wise difference as the code does it
Sub(as, af, bs, bf) == IF af - bf < 0 THEN <<as - bs - 1, af - bf + Base>> ELSE <<as - bs, af - bf>>
Arith == (day = Jan1(1970)) => \A as, bs \in 0..Max, af, bf \in 0..Base - 1 :
   LET x == Diff(as, af, bs, bf, Base) s == Sub(as, af, bs, bf) v == (as - bs) * Base + (af - bf) IN
   /\ v = (IF x.neg THEN -1 ELSE 1) * (x.s * Base + x.f) /\ x.s >= 0 /\ x.f \in 0..Base - 1 /\ (x.neg <=> v < 0)
   /\ v = s[1] * Base + s[2]
=============================================================================
