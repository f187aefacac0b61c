---------------------------- MODULE FileListTrace ---------------------------
(* C29: recorded searches.  `have` is what reading the directory itself     *)
(* gives, ok = 0 if it cannot be read.                                      *)
EXTENDS FileList, TraceIO
TInit == TraceInit
LIMIT == 4096
Need(d, m) == (IF d = <<>> THEN 2 ELSE EscLen(d) + (IF d[Len(d)] = SLASH THEN 0 ELSE 1)) + Len(m) + 1
Ls == /\ IsEvent("ls")
      /\ LET h == Rng(ev.have) d == ev.d m == ev.m f == ev.f IN
         IF m = <<>> \/ ev.ok = 0 THEN ev.r # 0
         ELSE IF Need(d, m) > LIMIT THEN ev.r # 0
         ELSE \/ Need(d, m) >= LIMIT - 2 /\ ev.r = -1
              \/ IF NoEntry(h, m, f)
                 THEN ev.r # 0 \/ (DotMatch(m, f) /\ Exact(ev.out, h, d, m, f))
                 ELSE ev.r = 0 /\ Exact(ev.out, h, d, m, f)
TNext == IsEvent("S") \/ Ls \/ Done
=============================================================================
