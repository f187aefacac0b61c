------------------------------- MODULE ProcMC -------------------------------
(* Descriptor tables of the caller and its children as the kernel keeps     *)
(* them: lowest free numbers, inheritance over spawn, file actions in order,*)
(* close-on-exec.  process_open and process_close as the implementation     *)
(* does them, with a failure at every step.  Properties: each child has     *)
(* exactly the three ends it should, the caller gets back exactly what it   *)
(* had, end-of-file is visible as soon as the peer closes.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kids, MaxFd, Bases, Len0, Cloexec
VARIABLES tab, kid, pipes, base, hist
vars == <<tab, kid, pipes, base, hist>>
None == [p |-> 0, e |-> "-", cx |-> FALSE]
Tty == [p |-> -1, e |-> "b", cx |-> FALSE]
File(cx) == [p |-> -2, e |-> "b", cx |-> cx]
Fds == 0..MaxFd
Open(t) == { f \in Fds : t[f] # None }
Lowest(t, n) == CHOOSE f \in Fds : t[f] = None /\ \A g \in 0..f - 1 : t[g] # None
MCInit == /\ \E B \in Bases : base = [f \in Fds |-> IF f <= 2 THEN Tty ELSE IF f \in B THEN File(f % 2 = 0) ELSE None]
          /\ tab = base /\ kid = [k \in Kids |-> [st |-> "none", tab |-> base, fds |-> <<>>]] /\ pipes = 0 /\ hist = <<>>
\* i-th pipe: read and write end
Alloc(t, p) == LET r == Lowest(t, 0) t1 == [t EXCEPT ![r] = [p |-> p, e |-> "r", cx |-> FALSE]] w == Lowest(t1, 0) IN
               [t |-> [t1 EXCEPT ![w] = [p |-> p, e |-> "w", cx |-> FALSE]], r |-> r, w |-> w]
CloseAll(t, S) == [f \in Fds |-> IF f \in S THEN None ELSE t[f]]
Dup2(t, a, b) == [t EXCEPT ![b] = [t[a] EXCEPT !.cx = FALSE]]
Exec(t) == [f \in Fds |-> IF t[f].cx THEN None ELSE t[f]]
\* fail: 0 no, 1..3 that pipe, 4 the spawn
DoOpen(k, fail) ==
  /\ kid[k].st = "none" /\ Len(hist) < Len0
  /\ Cardinality(Fds \ Open(tab)) >= 6
  /\ LET a == Alloc(tab, pipes + 1) b == Alloc(a.t, pipes + 2) c == Alloc(b.t, pipes + 3)
         ends == {a.r, a.w, b.r, b.w, c.r, c.w}
         t1 == CloseAll(c.t, {0, 1, 2})
         t2 == Dup2(Dup2(Dup2(t1, a.r, 0), b.w, 1), c.w, 2)
         child == Exec(CloseAll(t2, ends)) IN
     IF fail = 0 THEN /\ kid' = [kid EXCEPT ![k] = [st |-> "run", tab |-> child, fds |-> <<a.w, b.r, c.r>>]]
                      /\ tab' = [f \in Fds |-> IF f \in {a.r, b.w, c.w} THEN None ELSE IF f \in {a.w, b.r, c.r} THEN [c.t[f] EXCEPT !.cx = Cloexec] ELSE c.t[f]]
     ELSE LET t == IF fail = 1 THEN tab ELSE IF fail = 2 THEN a.t ELSE IF fail = 3 THEN b.t ELSE c.t
              made == IF fail = 1 THEN {} ELSE IF fail = 2 THEN {a.r, a.w} ELSE IF fail = 3 THEN {a.r, a.w, b.r, b.w} ELSE ends IN
          tab' = CloseAll(t, made) /\ UNCHANGED kid
  /\ pipes' = (IF fail = 0 THEN pipes + 3 ELSE pipes) /\ hist' = Append(hist, <<"open", k, fail>>) /\ UNCHANGED base
EofIn(k) == /\ kid[k].st = "run" /\ Len(hist) < Len0 /\ tab[kid[k].fds[1]] # None
            /\ tab' = [tab EXCEPT ![kid[k].fds[1]] = None] /\ kid' = [kid EXCEPT ![k].fds = <<MaxFd + 1, @[2], @[3]>>, ![k].st = "eof"]
            /\ hist' = Append(hist, <<"eof", k, 0>>) /\ UNCHANGED <<pipes, base>>
Exit(k) == /\ kid[k].st \in {"run", "eof"} /\ Len(hist) < Len0 /\ kid' = [kid EXCEPT ![k].st = "zombie", ![k].tab = [f \in Fds |-> None]]
           /\ hist' = Append(hist, <<"exit", k, 0>>) /\ UNCHANGED <<tab, pipes, base>>
DoClose(k) == /\ kid[k].st \in {"run", "eof", "zombie"} /\ Len(hist) < Len0
              /\ tab' = CloseAll(tab, { kid[k].fds[i] : i \in 1..3 } \cap Fds)
              /\ kid' = [kid EXCEPT ![k] = [st |-> "none", tab |-> [f \in Fds |-> None], fds |-> <<>>]]
              /\ hist' = Append(hist, <<"close", k, 0>>) /\ UNCHANGED <<pipes, base>>
MCNext == \E k \in Kids : (\E f \in 0..4 : DoOpen(k, f)) \/ EofIn(k) \/ Exit(k) \/ DoClose(k)
Running(k) == kid[k].st \in {"run", "eof"}
Own(k) == { f \in Fds : \E i \in 1..3 : kid[k].fds # <<>> /\ kid[k].fds[i] = f }
\* nothing but the children's ends beyond the base
CallerExact == \A f \in Fds : tab[f] = (IF \E k \in Kids : kid[k].st # "none" /\ f \in Own(k) THEN tab[f] ELSE base[f])
PipeEnds(t) == { <<t[f].p, t[f].e>> : f \in { g \in Fds : t[g].p > 0 } }
ChildExact == \A k \in Kids : Running(k) =>
   /\ \A f \in Fds : f > 2 => kid[k].tab[f] = (IF base[f].cx THEN None ELSE base[f])
   /\ kid[k].tab[0].e = "r" /\ kid[k].tab[1].e = "w" /\ kid[k].tab[2].e = "w"
   /\ kid[k].tab[1].p = tab[kid[k].fds[2]].p /\ kid[k].tab[2].p = tab[kid[k].fds[3]].p /\ Cardinality(PipeEnds(kid[k].tab)) = 3
\* end-of-file: no table but the peer's has the other end
Holders(p, e) == (IF <<p, e>> \in PipeEnds(tab) THEN {0} ELSE {}) \cup { k \in Kids : Running(k) /\ <<p, e>> \in PipeEnds(kid[k].tab) }
EofVisible == \A k \in Kids :
   /\ (kid[k].st = "run" => Holders(kid[k].tab[0].p, "w") = {0} /\ Holders(kid[k].tab[1].p, "w") = {k})
   /\ (kid[k].st = "eof" => Holders(kid[k].tab[0].p, "w") = {})
   /\ (kid[k].st = "zombie" => \A i \in 2..3 : Holders(tab[kid[k].fds[i]].p, "w") = {})
Emit == Len(hist) = Len0 => PrintT("@S" \o ToJson(hist))
View == <<tab, kid, base, hist>>
=============================================================================
