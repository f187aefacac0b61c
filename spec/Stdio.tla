------------------------------- MODULE Stdio -------------------------------
(* C35: the stdio replacement header.  Every call puts its text at the end  *)
(* of the file its descriptor stands for, at once: nothing is held back, so *)
(* the files are the texts of the calls in program order at every moment,   *)
(* also where standard output and error are the same file.                  *)
EXTENDS Format, Sequences
VARIABLES files, same
svars == <<files, same>>
SInit == files = <<<<>>, <<>>, <<>>>> /\ same = FALSE
File(fd) == IF fd = 2 /\ same THEN 1 ELSE fd
SNew(s) == files' = <<<<>>, <<>>, <<>>>> /\ same' = s
\* the text of a printing call; a format that is not supported prints nothing
Printed(f, as, o) == Emitted(Expand(f, as), 4095, o)
Line(s) == s \o <<10>>
Error(s, d) == s \o <<58, 32>> \o d \o <<10>>
\* text o arrives on descriptor fd
Arrive(fd, o) == files' = [files EXCEPT ![File(fd)] = @ \o o] /\ UNCHANGED same
=============================================================================
