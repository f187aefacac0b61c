------------------------------ MODULE FileList ------------------------------
(* C29.  What a directory search lists: the entries whose name matches the  *)
(* mask (shell wildcards: * ? [set] [!set] and \ for a literal character),  *)
(* with the flags of the search.  Names and masks are byte sequences.       *)
EXTENDS Integers, Sequences, FiniteSets
DOT == 46  SLASH == 47  STAR == 42  QM == 63  OB == 91  CB == 93  BS == 92
Lit(c) == [t |-> 0, c |-> c, S |-> {}]
AnyT == [t |-> 1, c |-> 0, S |-> {}]
StarT == [t |-> 2, c |-> 0, S |-> {}]
SetT(neg, S) == [t |-> 3, c |-> IF neg THEN 1 ELSE 0, S |-> S]
\* end of a bracket expression starting at i (its '['), 0 if it is not closed
CloseAt(m, i) == LET f == IF i < Len(m) /\ m[i + 1] \in {33, 94} THEN i + 3 ELSE i + 2      \* the first member may be ']'
                     C == { k \in f..Len(m) : m[k] = CB } IN IF C = {} THEN 0 ELSE CHOOSE k \in C : \A j \in C : k <= j
RECURSIVE Members(_)
Members(s) == IF s = <<>> THEN {}
              ELSE IF Len(s) >= 3 /\ s[2] = 45 THEN s[1]..s[3] \cup Members(SubSeq(s, 4, Len(s)))
              ELSE {s[1]} \cup Members(Tail(s))
RECURSIVE Tok(_, _)
Tok(m, i) == IF i > Len(m) THEN <<>>
             ELSE IF m[i] = BS /\ i < Len(m) THEN <<Lit(m[i + 1])>> \o Tok(m, i + 2)
             ELSE IF m[i] = STAR THEN <<StarT>> \o Tok(m, i + 1)
             ELSE IF m[i] = QM THEN <<AnyT>> \o Tok(m, i + 1)
             ELSE IF m[i] = OB /\ CloseAt(m, i) > 0
                  THEN LET k == CloseAt(m, i) neg == m[i + 1] \in {33, 94} IN
                       <<SetT(neg, Members(SubSeq(m, IF neg THEN i + 2 ELSE i + 1, k - 1)))>> \o Tok(m, k + 1)
             ELSE <<Lit(m[i])>> \o Tok(m, i + 1)
One(t, c) == \/ t.t = 0 /\ t.c = c
             \/ t.t = 1
             \/ t.t = 3 /\ ((c \in t.S) # (t.c = 1))
RECURSIVE M(_, _, _, _)
M(T, i, n, j) == IF i > Len(T) THEN j > Len(n)
                 ELSE IF T[i].t = 2 THEN M(T, i + 1, n, j) \/ (j <= Len(n) /\ M(T, i, n, j + 1))
                 ELSE j <= Len(n) /\ One(T[i], n[j]) /\ M(T, i + 1, n, j + 1)
\* hidden: names with a leading dot are matched by wildcards too
Match(T, n, hidden) == M(T, 1, n, 1) /\ (n # <<>> /\ n[1] = DOT /\ ~hidden => T # <<>> /\ T[1] = Lit(DOT))
MatchMask(m, n, hidden) == Match(Tok(m, 1), n, hidden)
RECURSIVE Esc(_)
Esc(d) == IF d = <<>> THEN <<>> ELSE (IF d[1] \in {OB, QM, STAR, BS} THEN <<BS, d[1]>> ELSE <<d[1]>>) \o Esc(Tail(d))
EscLen(d) == Len(d) + Cardinality({ i \in 1..Len(d) : d[i] \in {OB, QM, STAR, BS} })
Bit(f, b) == (f \div b) % 2 = 1
Prefix(d) == IF d = <<>> THEN <<DOT, SLASH>> ELSE IF d[Len(d)] = SLASH THEN d ELSE d \o <<SLASH>>
\* the text with which an entry is listed
Shown(d, flags, n) == IF Bit(flags, 4) THEN n ELSE Prefix(d) \o n
(* have: the entries of the directory, a set of [n, k] with k = 0 not a     *)
(* directory, 1 directory, 2 link to a directory (may be marked or not);    *)
(* "." and ".." are not in it.                                               *)
Required(have, d, T, flags) ==
  { Shown(d, flags, IF e.k = 1 THEN e.n \o <<SLASH>> ELSE e.n) : e \in { x \in have : x.k # 2 /\ Match(T, x.n, Bit(flags, 8)) } }
Links(have, d, T, flags) == { e.n : e \in { x \in have : x.k = 2 /\ Match(T, x.n, Bit(flags, 8)) } }
DotName(k) == IF k = 1 THEN <<DOT>> ELSE <<DOT, DOT>>
\* "." (k = 1) and ".." (k = 2): with HIDDEN they are entries like others, but
\* only if asked for; without it they are put in front if asked for.  A mask
\* that itself begins with a dot may list them in any case.
DotMust(k, d, T, flags) == IF ~Bit(flags, k) THEN {}
                           ELSE IF Bit(flags, 8) THEN (IF Match(T, DotName(k), TRUE) THEN {Shown(d, flags, DotName(k) \o <<SLASH>>)} ELSE {})
                           ELSE {DotName(k) \o <<SLASH>>}
DotMay(k, d, T, flags) == IF T # <<>> /\ T[1] = Lit(DOT) /\ ~Bit(flags, 8) /\ Match(T, DotName(k), TRUE) THEN {Shown(d, flags, DotName(k) \o <<SLASH>>)} ELSE {}
SeqCount(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
Rng(s) == { s[i] : i \in 1..Len(s) }
\* is the list `out` an exact listing?
Exact(out, have, d, m, flags) ==
  LET T == Tok(m, 1)
      R == Required(have, d, T, flags) \cup DotMust(1, d, T, flags) \cup DotMust(2, d, T, flags)
      P == DotMay(1, d, T, flags) \cup DotMay(2, d, T, flags)
      L == Links(have, d, T, flags)
      LS == { Shown(d, flags, n) : n \in L } \cup { Shown(d, flags, n \o <<SLASH>>) : n \in L } IN
  /\ R \subseteq Rng(out) /\ Rng(out) \subseteq (R \cup P \cup LS)
  /\ \A x \in Rng(out) : x \in P \/ SeqCount(out, x) = 1
  /\ \A n \in L : SeqCount(out, Shown(d, flags, n)) + SeqCount(out, Shown(d, flags, n \o <<SLASH>>)) = 1
\* nothing but perhaps "." and ".." matches
NoEntry(have, m, flags) == \A e \in have : ~MatchMask(m, e.n, Bit(flags, 8))
DotMatch(m, flags) == \E k \in {1, 2} : MatchMask(m, DotName(k), Bit(flags, 8))
=============================================================================
