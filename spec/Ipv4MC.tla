------------------------------- MODULE Ipv4MC -------------------------------
(* The recogniser as a character automaton (digits, dots, last was a dot)   *)
(* and the field scanner, against the declarative definitions, for all      *)
(* texts up to MaxLen and all long texts made of digit groups.              *)
EXTENDS Codec, TLC, Json
CONSTANTS Alph, MaxLen, Groups, Octs
VARIABLES s, x, n, d, wasdot, st, out
vars == <<s, x, n, d, wasdot, st, out>>
Rep(k) == [i \in 1..k |-> 49]
Long == { Rep(a) \o <<DOT>> \o Rep(b) \o <<DOT>> \o Rep(c) \o <<DOT>> \o Rep(e) : a \in Groups, b \in Groups, c \in Groups, e \in Groups }
MCInit == /\ \/ s \in UNION { [1..k -> Alph] : k \in 0..MaxLen } \/ s \in Long
             \/ \E a \in Octs, b \in Octs, c \in Octs, e \in Octs : s = V4Text(<<a, b, c, e>>)
          /\ x = 1 /\ n = 0 /\ d = 0 /\ wasdot = FALSE /\ st = "run" /\ out = <<>>
          /\ PrintT("@S" \o ToJson(s))
Step == /\ st = "run" /\ x <= Len(s) /\ UNCHANGED <<s, out>> /\ x' = x + 1
        /\ IF s[x] = DOT THEN (IF n = 0 \/ wasdot THEN st' = "no" /\ UNCHANGED <<n, d, wasdot>> ELSE d' = d + 1 /\ wasdot' = TRUE /\ UNCHANGED <<n, st>>)
           ELSE IF IsDigit(s[x]) THEN n' = n + 1 /\ wasdot' = FALSE /\ UNCHANGED <<d, st>>
           ELSE st' = "no" /\ UNCHANGED <<n, d, wasdot>>
End == /\ st = "run" /\ x > Len(s) /\ UNCHANGED <<s, x, n, d, wasdot, out>>
       /\ st' = (IF d = 3 /\ ~wasdot /\ n >= 4 /\ n <= 12 THEN "yes" ELSE "no")
MCNext == Step \/ End
Agrees == (st = "yes" => IsV4(s)) /\ (st = "no" => ~IsV4(s))
RoundTrip == s = <<>> /\ x = 1 => \A a \in Octs : \A b \in Octs : LET t == V4Text(<<a, b, a, b>>) f == FieldsOf(t) IN
                IsV4(t) /\ Octets(t) /\ Len(t) <= 15 /\ [k \in 1..4 |-> DecVal(f[k], Len(f[k]))] = <<a, b, a, b>>
=============================================================================
