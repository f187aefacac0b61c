-------------------------------- MODULE Opt ---------------------------------
(* Option lookup.  args: the arguments after the program name.              *)
EXTENDS Integers, Sequences
DASH == 45
EQ == 61
\* the forms under which name o may be given: -o, and --o for longer names
Starts(a, p) == Len(a) >= Len(p) /\ SubSeq(a, 1, Len(p)) = p
Forms(o) == {<<DASH>> \o o} \cup (IF Len(o) > 1 THEN {<<DASH, DASH>> \o o} ELSE {})
Flag(args, o) == \E i \in 1..Len(args) : args[i] \in Forms(o)
\* argument i gives option o with a value / as a separate word
Assign(a, o) == \E f \in Forms(o) : Starts(a, f \o <<EQ>>)
Word(args, i, o) == i < Len(args) /\ args[i] \in Forms(o)
Hit(args, i, o) == Assign(args[i], o) \/ Word(args, i, o)
\* <<argument index, offset of the value>>, <<0, 0>> when not given
Get(args, o) == IF ~\E i \in 1..Len(args) : Hit(args, i, o) THEN <<0, 0>>
   ELSE LET i == CHOOSE k \in 1..Len(args) : Hit(args, k, o) /\ \A j \in 1..k - 1 : ~Hit(args, j, o) IN
        IF Assign(args[i], o) THEN LET f == CHOOSE f \in Forms(o) : Starts(args[i], f \o <<EQ>>) IN <<i, Len(f) + 1>> ELSE <<i + 1, 0>>
=============================================================================
