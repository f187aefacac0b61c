------------------------------- MODULE TreapMC ------------------------------
(* The implicit treap of tlist: nodes <<prior, cnt, val, left, right>>, with   *)
(* split, merge, getitem and remove as in the implementation, every choice of  *)
(* priorities, against the abstract sequence.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Vals, Priors
VARIABLES t, seq, hist
vars == <<t, seq, hist>>
View == <<t, seq>>
Nil == <<>>
P(n) == n[1]
V(n) == n[3]
L(n) == n[4]
R(n) == n[5]
Cnt(n) == IF n = Nil THEN 0 ELSE n[2]
Mk(p, v, a, b) == <<p, Cnt(a) + Cnt(b) + 1, v, a, b>>
RECURSIVE Merge(_, _)
Merge(a, b) == IF a = Nil THEN b ELSE IF b = Nil THEN a
               ELSE IF P(a) > P(b) THEN Mk(P(a), V(a), L(a), Merge(R(a), b))
               ELSE Mk(P(b), V(b), Merge(a, L(b)), R(b))
RECURSIVE Split(_, _, _)      \* -> <<left, right>>
Split(n, key, add) ==
  IF n = Nil THEN <<Nil, Nil>>
  ELSE LET cur == add + Cnt(L(n)) IN
       IF key <= cur THEN LET s == Split(L(n), key, add) IN <<s[1], Mk(P(n), V(n), s[2], R(n))>>
       ELSE LET s == Split(R(n), key, add + 1 + Cnt(L(n))) IN <<Mk(P(n), V(n), L(n), s[1]), s[2]>>
RECURSIVE GetItem(_, _, _)
GetItem(n, idx, add) ==
  IF n = Nil THEN -1
  ELSE LET cur == add + Cnt(L(n)) IN
       IF cur = idx THEN V(n) ELSE IF cur < idx THEN GetItem(R(n), idx, cur + 1) ELSE GetItem(L(n), idx, add)
RECURSIVE Remove(_, _, _)
Remove(n, idx, add) ==
  IF n = Nil THEN Nil
  ELSE LET cur == add + Cnt(L(n))
           lk == IF L(n) # Nil THEN Cnt(L(L(n))) + add ELSE -1
           rk == IF R(n) # Nil THEN Cnt(L(R(n))) + cur + 1 ELSE -1 IN
       IF cur = idx THEN Merge(L(n), R(n))
       ELSE IF lk = idx THEN Mk(P(n), V(n), Merge(L(L(n)), R(L(n))), R(n))
       ELSE IF rk = idx THEN Mk(P(n), V(n), L(n), Merge(L(R(n)), R(R(n))))
       ELSE IF cur < idx THEN Mk(P(n), V(n), L(n), Remove(R(n), idx, cur + 1))
       ELSE Mk(P(n), V(n), Remove(L(n), idx, add), R(n))
RECURSIVE InOrder(_)
InOrder(n) == IF n = Nil THEN <<>> ELSE InOrder(L(n)) \o <<V(n)>> \o InOrder(R(n))
RECURSIVE WF(_)
WF(n) == n = Nil \/ /\ Cnt(n) = Cnt(L(n)) + Cnt(R(n)) + 1
                    /\ (L(n) = Nil \/ P(L(n)) <= P(n)) /\ (R(n) = Nil \/ P(R(n)) <= P(n))
                    /\ WF(L(n)) /\ WF(R(n))
MCInit == t = Nil /\ seq = <<>> /\ hist = <<>>
Do(s) == hist' = Append(hist, s) /\ PrintT("@S" \o ToJson(hist'))
Str(x) == ToString(x)
Ins(v, p, pr) == /\ Len(seq) < MaxLen /\ p <= Len(seq)
                 /\ LET s == Split(t, p, 0) IN t' = Merge(Merge(s[1], Mk(pr, v, Nil, Nil)), s[2])
                 /\ seq' = SubSeq(seq, 1, p) \o <<v>> \o SubSeq(seq, p + 1, Len(seq))
                 /\ Do("ins " \o Str(v) \o " " \o Str(p))
Del(p) == /\ p < Len(seq) /\ t' = Remove(t, p, 0)
          /\ seq' = SubSeq(seq, 1, p) \o SubSeq(seq, p + 2, Len(seq)) /\ Do("delr " \o Str(p))
MCNext == (\E v \in Vals, p \in 0..MaxLen, pr \in Priors : Ins(v, p, pr)) \/ (\E p \in 0..MaxLen : Del(p))
Shape == WF(t) /\ Cnt(t) = Len(seq)
Order == InOrder(t) = seq
GetOK == \A i \in 0..Len(seq) : GetItem(t, i, 0) = (IF i < Len(seq) THEN seq[i + 1] ELSE -1)
=============================================================================
