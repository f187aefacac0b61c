-------------------------------- MODULE Path --------------------------------
(* Absolute paths (C17) and names of files (C18).  A location is a sequence *)
(* of components; Norm is the canonical text of the location a path denotes.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Scan
SL == 47
DOT == 46
FAIL == <<-1>>             \* no such text
NOWHERE == <<<<-1>>>>      \* no such location
Starts(p) == { i \in 1..Len(p) : p[i] # SL /\ (i = 1 \/ p[i - 1] = SL) }
Ends(p)   == { i \in 1..Len(p) : p[i] # SL /\ (i = Len(p) \/ p[i + 1] = SL) }
Comps(p) == LET a == SetToSortSeq(Starts(p), <) b == SetToSortSeq(Ends(p), <) IN [k \in 1..Len(a) |-> SubSeq(p, a[k], b[k])]
Walk(acc, c) == IF acc = NOWHERE \/ c = <<DOT>> THEN acc
                ELSE IF c = <<DOT, DOT>> THEN (IF acc = <<>> THEN NOWHERE ELSE SubSeq(acc, 1, Len(acc) - 1))
                ELSE Append(acc, c)
Resolve(cs) == FoldLeft(Walk, <<>>, cs)
Text(cs) == FlattenSeq([k \in 1..Len(cs) |-> <<SL>> \o cs[k]])
Absolute(p) == p # <<>> /\ p[1] = SL
Location(p) == IF Absolute(p) THEN Resolve(Comps(p)) ELSE NOWHERE
Norm(p) == LET loc == Location(p) IN IF loc = NOWHERE THEN FAIL ELSE IF loc = <<>> THEN <<SL>> ELSE Text(loc)
\* the part of q below p, FAIL if q is not p or below it
Diff(p, q) == LET a == Norm(p) b == Norm(q) pre == IF a = <<SL>> THEN <<>> ELSE a IN
   IF a = FAIL \/ b = FAIL THEN FAIL
   ELSE IF b = a /\ a # <<SL>> THEN <<>>
   ELSE IF Len(b) > Len(pre) /\ SubSeq(b, 1, Len(pre)) = pre /\ b[Len(pre) + 1] = SL THEN SubSeq(b, Len(pre) + 1, Len(b))
   ELSE FAIL
\* index (0-based) behind the last c, -1 if there is none
After(s, c) == LastTrue([i \in 1..Len(s) |-> s[i] = c], 1, Len(s))
=============================================================================
