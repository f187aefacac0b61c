----------------------------- MODULE GuardTrace -----------------------------
(* Guarded allocations: blk maps the id of a live block to its page count.     *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
VARIABLE blk
RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumOver(f, D \ {x})
Pages == SumOver(blk, DOMAIN blk)
Put(k, v) == [x \in DOMAIN blk \cup {k} |-> IF x = k THEN v ELSE blk[x]]
\* need: pages the bytes fill;  zero: all bytes read 0; rw: all bytes writable and private; rfault / wfault: reading / writing byte n traps
Alloc == /\ IF ev.fault = 1 \/ (ev.big = 1 /\ ev.ok = 0)   \* more than 1 GB may not be available
            THEN ev.ok = 0 /\ UNCHANGED blk /\ ev.total = Pages
            ELSE /\ ev.ok = 1 /\ ev.zero = 1 /\ ev.rw = 1 /\ ev.rfault = 1 /\ ev.wfault = 1
                 /\ blk' = Put(ev.id, ev.total - Pages) /\ ev.total - Pages >= ev.need + 1
         /\ ev.foreign = 0
Free == /\ ev.id \in DOMAIN blk /\ blk' = [x \in DOMAIN blk \ {ev.id} |-> blk[x]]
        /\ ev.total = Pages - blk[ev.id] /\ ev.foreign = 0
\* all live blocks still hold their bytes and still trap (also after a forked child wrote to its copy)
Check == ev.bad = 0 /\ ev.live = Cardinality(DOMAIN blk) /\ UNCHANGED blk
TNext ==
  \/ (IsEvent("S") /\ blk' = [x \in {} |-> 0])
  \/ (IsEvent("alloc") /\ Alloc)
  \/ (IsEvent("free") /\ Free)
  \/ (IsEvent("check") /\ Check)
  \/ (Done /\ UNCHANGED blk)
TInit == TraceInit /\ blk = [x \in {} |-> 0]
=============================================================================
