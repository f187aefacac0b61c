------------------------------- MODULE GuardMC ------------------------------
(* Address arithmetic of guard_alloc / guard_free with page size PS, for all   *)
(* sizes up to MaxN: what is mapped, protected, returned and unmapped.         *)
EXTENDS Integers, TLC, Json
CONSTANTS PS, MaxN
VARIABLES n, mapped, guard, p, unmapped
Base == 8 * PS
MCInit == /\ n \in 0..MaxN /\ unmapped = {}
          /\ LET pages == 1 + n \div PS IN
             /\ mapped = Base..(Base + (pages + 1) * PS - 1)
             /\ guard = (Base + pages * PS)..(Base + (pages + 1) * PS - 1)
             /\ p = Base + pages * PS - n
MCNext == /\ unmapped = {}
          /\ LET off == PS - (n % PS) IN unmapped' = (p - off)..(p - off + n + off + PS - 1)
          /\ UNCHANGED <<n, mapped, guard, p>>
Usable == \A a \in p..p + n - 1 : a \in mapped /\ a \notin guard
Trap == p + n \in guard
FreesAll == unmapped # {} => unmapped = mapped
=============================================================================
