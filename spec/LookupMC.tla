------------------------------ MODULE LookupMC ------------------------------
(* Linear search as the list lookups run it, over every list of two keys up *)
(* to MaxLen and every needle (one absent): the result is the first match.  *)
EXTENDS Strings, TLC, Json
CONSTANTS Keys, MaxLen
VARIABLES lst, needle, i, res
MCInit == /\ lst \in UNION { [1..n -> Keys] : n \in 0..MaxLen } /\ needle \in Keys \cup {0} /\ i = 1 /\ res = -2 /\ SInit
          /\ (needle = 0 => PrintT("@S" \o ToJson([l |-> lst])))
MCNext == /\ res = -2 /\ Keep /\ UNCHANGED <<lst, needle>>
          /\ IF i > Len(lst) THEN res' = -1 /\ UNCHANGED i
             ELSE IF lst[i] = needle THEN res' = i - 1 /\ UNCHANGED i ELSE i' = i + 1 /\ UNCHANGED res
FirstMatch == res # -2 => /\ (res = -1 <=> \A k \in 1..Len(lst) : lst[k] # needle)
                          /\ (res >= 0 => lst[res + 1] = needle /\ \A k \in 1..res : lst[k] # needle)
                          /\ res = FirstEq(lst, needle)
=============================================================================
