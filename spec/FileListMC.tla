----------------------------- MODULE FileListMC -----------------------------
(* The search as the code does it - build one pattern from the escaped      *)
(* directory name and the mask, let glob match it component by component,   *)
(* filter the resulting paths by looking at their last bytes - against the  *)
(* exact listing.  The directory stands among others with similar names.    *)
EXTENDS FileList, TLC, Json, SequencesExt
CONSTANTS MaxEnt, MaxMask, MaxDir
VARIABLES have, mask, flags, dir
vars == <<have, mask, flags, dir>>
Names == { <<97>>, <<46, 97>>, <<42>>, <<98>>, <<46, 46, 97>>, <<97, 46>>, <<91, 97, 93>>, <<92>> }
Strs(A, n) == UNION { [1..k -> A] : k \in 0..n }
Masks == (Strs({97, 46, 42, 63}, MaxMask) \ {<<>>}) \cup { <<91, 97, 93>>, <<91, 33, 97, 93>>, <<91, 46, 93, 42>>, <<92, 42>>, <<92, 46, 42>>, <<91, 97>>, <<42, 92, 92>> }
Dirs == Strs({97, 42, 91, 93, 92, 46}, MaxDir) \ {<<>>, <<46>>, <<46, 46>>}
Ents == [n : Names, k : {0, 1}]
Contents == { S \in SUBSET Ents : Cardinality(S) <= MaxEnt /\ \A x, y \in S : x.n = y.n => x = y }
MCInit == /\ have \in Contents /\ mask \in Masks /\ flags = 0 /\ dir = <<97>>
MCNext == \/ flags < 15 /\ flags' = flags + 1 /\ UNCHANGED <<have, mask, dir>>
\* what glob gives for the pattern Esc(dir)/mask: paths, directories marked
Glob == LET all == have \cup { [n |-> DotName(k), k |-> 1] : k \in {1, 2} }
            sel == { e \in all : MatchMask(mask, e.n, Bit(flags, 8)) } IN
        { Prefix(dir) \o e.n \o (IF e.k = 1 THEN <<SLASH>> ELSE <<>>) : e \in sel }
At(s, i) == s[Len(s) + i]     \* i <= 0: from the end
RFind(s) == LET S == { i \in 1..Len(s) : s[i] = SLASH } IN CHOOSE i \in S : \A j \in S : j <= i
Kept(s) == IF ~Bit(flags, 4)
           THEN IF /\ Bit(flags, 8) /\ Len(s) >= 3 /\ At(s, 0) = SLASH /\ At(s, -1) = DOT
                   /\ \/ (~Bit(flags, 1) /\ At(s, -2) = SLASH)
                      \/ (IF ~Bit(flags, 2) /\ Len(s) >= 4 THEN At(s, -2) = DOT /\ At(s, -3) = SLASH ELSE FALSE)
                THEN <<>> ELSE <<s>>
           ELSE LET isd == At(s, 0) = SLASH
                    t == IF isd THEN SubSeq(s, 1, Len(s) - 1) ELSE s
                    b == SubSeq(s, RFind(t) + 1, Len(s)) IN
                IF Bit(flags, 8) /\ b[1] = DOT /\ \/ (~Bit(flags, 1) /\ b = <<DOT, SLASH>>)
                                                   \/ (~Bit(flags, 2) /\ b = <<DOT, DOT, SLASH>>)
                THEN <<>> ELSE <<b>>
Front2 == IF Bit(flags, 8) THEN <<>> ELSE (IF Bit(flags, 1) THEN <<<<DOT, SLASH>>>> ELSE <<>>) \o (IF Bit(flags, 2) THEN <<<<DOT, DOT, SLASH>>>> ELSE <<>>)
Result == Front2 \o FoldLeft(LAMBDA a, s : a \o Kept(s), <<>>, SetToSeq(Glob))
Sound == IF Glob = {} THEN NoEntry(have, mask, flags) ELSE Exact(Result, have, dir, mask, flags)
\* the escaped directory name matches that name and no other
Escape == (flags = 0 /\ have = {} /\ mask = <<42>>) => \A d, x \in Dirs : MatchMask(Esc(d), x, FALSE) = (d = x) /\ EscLen(d) = Len(Esc(d))
\* the matcher against the language of the mask
RECURSIVE Lang(_, _)
Lang(T, n) == IF T = <<>> THEN {<<>>}
              ELSE LET R == Lang(Tail(T), n) A == {97, 98, 46, 42, 91, 93, 92} IN
                   IF T[1].t = 2 THEN { w \in { p \o r : p \in Strs(A, n), r \in R } : Len(w) <= n }
                   ELSE { w \in { <<c>> \o r : c \in { c \in A : One(T[1], c) }, r \in R } : Len(w) <= n }
Matcher == (flags = 0 /\ have = {}) => \A n \in Names : (n \in Lang(Tok(mask, 1), 3)) = M(Tok(mask, 1), 1, n, 1)
Scripts == flags = 0
Emit == flags = 0 => PrintT("@S" \o ToJson([h |-> SetToSeq(have), m |-> mask]))
=============================================================================
