-------------------------------- MODULE Pool --------------------------------
(* ssalloc: a pool of N blocks of ES bytes inside an object of PS bytes.       *)
(* live: offset of each outstanding block -> the value its bytes hold.         *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES live, N, ES, PS
pvars == <<live, N, ES, PS>>
NoneLive == [x \in {} |-> 0]
New(n, es, ps) == live' = NoneLive /\ N' = n /\ ES' = es /\ PS' = ps
Same == UNCHANGED <<N, ES, PS>>
\* off = -1: refused.  v: what the caller writes into the whole block
Alloc(size, off, v) ==
  /\ Same
  /\ IF size <= ES /\ Cardinality(DOMAIN live) < N
     THEN /\ off >= 0 /\ off + ES <= PS
          /\ \A o \in DOMAIN live : off + ES <= o \/ o + ES <= off
          /\ live' = [x \in DOMAIN live \cup {off} |-> IF x = off THEN v ELSE live[x]]
     ELSE off = -1 /\ UNCHANGED live
Free(off) == /\ Same
             /\ IF off \in DOMAIN live THEN live' = [x \in DOMAIN live \ {off} |-> live[x]] ELSE UNCHANGED live
\* contents of all outstanding blocks as read back, offs strictly increasing
Contents(offs, vs) == /\ Len(offs) = Cardinality(DOMAIN live) /\ Len(vs) = Len(offs)
                      /\ {offs[i] : i \in 1..Len(offs)} = DOMAIN live
                      /\ \A i \in 1..Len(offs) : vs[i] = live[offs[i]]
                      /\ UNCHANGED pvars
PInit == live = NoneLive /\ N = 1 /\ ES = 1 /\ PS = 1
=============================================================================
