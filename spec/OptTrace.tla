------------------------------ MODULE OptTrace ------------------------------
EXTENDS Opt, TraceIO
VARIABLES args
RECURSIVE LinesOf(_, _, _)
LinesOf(a, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN a[i] \o <<10>> ELSE LET m == (i + j) \div 2 IN LinesOf(a, i, m) \o LinesOf(a, m + 1, j)
Lines(a) == LinesOf(a, 1, Len(a))
TInit == TraceInit /\ args = <<>>
TNext ==
  \/ IsEvent("S") /\ args' = <<>>
  \/ IsEvent("argv") /\ args' = ev.a
  \/ IsEvent("get") /\ (IF ev.o # <<>> /\ ev.o[1] # DASH /\ (\A j \in 1..Len(ev.o) : ev.o[j] # EQ) THEN <<ev.i, ev.off>> = Get(args, ev.o) ELSE TRUE) /\ UNCHANGED args
  \/ IsEvent("flag") /\ (IF ev.o # <<>> /\ ev.o[1] # DASH THEN (ev.r # 0) = Flag(args, ev.o) ELSE TRUE) /\ UNCHANGED args
  \/ IsEvent("print") /\ ev.b = Lines(args) /\ UNCHANGED args
  \/ Done /\ UNCHANGED args
=============================================================================
