------------------------------- MODULE HashTr -------------------------------
(* C22, C23: contexts are specification state; every update and digest of   *)
(* the real code is matched.                                                *)
EXTENDS Hash, TraceIO
VARIABLES md, sha, crc
hv == <<md, sha, crc>>
Empty == [k \in 0..3 |-> <<>>]
TInit == TraceInit /\ md = Empty /\ sha = Empty /\ crc = Empty
HexD(b) == FlattenSeq([i \in 1..Len(b) |-> LET h(d) == IF d < 10 THEN 48 + d ELSE 87 + d IN <<h(b[i] \div 16), h(b[i] % 16)>>])
\* contexts fed with zero bytes only, 2^e of them in all
Huge(e) == e \in {29, 32}
Tab == IF ev.c = 1 THEN TabC ELSE TabI
TNext ==
  \/ IsEvent("S") /\ md' = Empty /\ sha' = Empty /\ crc' = Empty
  \/ IsEvent("mi") /\ md' = [md EXCEPT ![ev.k] = Md0] /\ UNCHANGED <<sha, crc>>
  \/ IsEvent("mu") /\ md' = [md EXCEPT ![ev.k] = MdUpdate(md[ev.k], ev.b)] /\ UNCHANGED <<sha, crc>>
  \/ IsEvent("mz") /\ Huge(ev.e) /\ md' = [md EXCEPT ![ev.k] = [v |-> IF ev.e = 29 THEN MD5Big ELSE MD5Huge, t |-> <<>>, n |-> <<2 ^ (ev.e - 24), 0>>]] /\ UNCHANGED <<sha, crc>>
  \/ IsEvent("me") /\ ev.d = MdDigest(md[ev.k]) /\ UNCHANGED hv
  \/ IsEvent("ms") /\ ev.o = HexD(MdDigest(MdUpdate(Md0, ev.b))) /\ UNCHANGED hv
  \/ IsEvent("si") /\ sha' = [sha EXCEPT ![ev.k] = Sha0] /\ UNCHANGED <<md, crc>>
  \/ IsEvent("su") /\ sha' = [sha EXCEPT ![ev.k] = ShaUpdate(sha[ev.k], ev.b)] /\ UNCHANGED <<md, crc>>
  \/ IsEvent("sz") /\ Huge(ev.e) /\ sha' = [sha EXCEPT ![ev.k] = [v |-> IF ev.e = 29 THEN SHABig ELSE SHAHuge, t |-> <<>>, n |-> <<2 ^ (ev.e - 24), 0>>]] /\ UNCHANGED <<md, crc>>
  \/ IsEvent("se") /\ ev.d = ShaDigest(sha[ev.k]) /\ UNCHANGED hv
  \/ IsEvent("ct") /\ UNCHANGED hv
  \/ IsEvent("ci") /\ crc' = [crc EXCEPT ![ev.k] = Crc0] /\ UNCHANGED <<md, sha>>
  \/ IsEvent("cu") /\ crc' = [crc EXCEPT ![ev.k] = CrcUpdate(Tab, crc[ev.k], ev.b)] /\ UNCHANGED <<md, sha>>
  \/ IsEvent("cz") /\ crc' = [crc EXCEPT ![ev.k] = CrcZeros(Tab, crc[ev.k], ev.e)] /\ UNCHANGED <<md, sha>>
  \/ IsEvent("cf") /\ ev.d = CrcFinal(crc[ev.k]) /\ UNCHANGED hv
  \/ IsEvent("rc4") /\ ev.o = Rc4(ev.key, ev.b) /\ ev.back = ev.b /\ UNCHANGED hv
  \/ IsEvent("rc4z") /\ UNCHANGED hv
     /\ IF ev.n[1] = 0 THEN ev.o = Rc4Tail(ev.key, ev.n[2], 32) ELSE ev.key = <<75, 101, 121>> /\ ev.n = <<256, 32>> /\ ev.o = RC4Huge
  \/ Done /\ UNCHANGED hv
=============================================================================
