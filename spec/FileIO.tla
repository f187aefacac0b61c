------------------------------- MODULE FileIO -------------------------------
(* Whole-file load and save (C14).  A file's contents is a run-length       *)
(* encoding <<byte, count, byte, count, ...>> (canonical, so equality is    *)
(* equality of contents) or, for line lists, the bytes themselves.          *)
EXTENDS Integers, Sequences, FiniteSets, Lines
VARIABLES disk,     \* file name -> runs, for the files that exist
          ldisk     \* file name -> bytes (files of lines)
fvars == <<disk, ldisk>>
Has(f) == f \in DOMAIN disk
WithFile(f, c) == [x \in DOMAIN disk \cup {f} |-> IF x = f THEN c ELSE disk[x]]
WithLFile(f, c) == [x \in DOMAIN ldisk \cup {f} |-> IF x = f THEN c ELSE ldisk[x]]
RECURSIVE RSum(_, _)
RSum(c, i) == IF i > Len(c) THEN 0 ELSE c[i + 1] + RSum(c, i + 2)
RLen(c) == RSum(c, 1)
\* the first k bytes of the runs c
RECURSIVE RPrefix(_, _)
RPrefix(c, k) == IF k = 0 \/ c = <<>> THEN <<>>
                 ELSE IF c[2] >= k THEN <<c[1], k>>
                 ELSE <<c[1], c[2]>> \o RPrefix(SubSeq(c, 3, Len(c)), k - c[2])
\* what a caller may see of a save of n bytes c: there/d is the file afterwards
Save(f, c, n, r, there, d, err) ==
  /\ \/ r = n /\ there /\ d = c                                     \* stored
     \/ err /\ r < n /\ there /\ d = RPrefix(c, r)                  \* told how much was stored
     \/ err /\ r = 0 /\ (IF Has(f) THEN there /\ d = disk[f] ELSE ~there)  \* could not be opened
  /\ disk' = (IF there THEN WithFile(f, d) ELSE disk) /\ UNCHANGED ldisk
\* fault: a system call failed; eof: the file was shorter than announced
Load(f, null, d, n, fault, eof) ==
  /\ \/ null /\ (fault \/ eof \/ (IF Has(f) THEN disk[f] = <<>> ELSE TRUE))
     \/ ~null /\ Has(f) /\ d = disk[f] /\ ~eof
     \/ ~null /\ Has(f) /\ eof /\ d = RPrefix(disk[f], n)
  /\ UNCHANGED fvars
\* --- files of lines
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
LSave(f, c, r, there, d, trouble) ==
  /\ \/ r = 1 /\ there /\ d = Text(c)
     \/ r = 0 /\ trouble
  /\ ldisk' = (IF there THEN WithLFile(f, d) ELSE ldisk) /\ UNCHANGED disk
LLoad(f, r, ps, fault) ==
  /\ IF f \notin DOMAIN ldisk THEN r = 0 /\ ps = <<>>
     ELSE LET ls == Lines(ldisk[f]) IN
          \/ r = 1 /\ ps = ls
          \/ r = 0 /\ IsPrefix(ps, ls) /\ (fault \/ \E i \in 1..Len(ls) : Len(ls[i]) > 1023)
  /\ UNCHANGED fvars
FInit == disk = [x \in {} |-> <<>>] /\ ldisk = [x \in {} |-> <<>>]
=============================================================================
