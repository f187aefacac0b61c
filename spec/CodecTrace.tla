----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, TraceIO
TInit == TraceInit
Pre(o, s) == Len(o) >= Len(s) /\ SubSeq(o, 1, Len(s)) = s
\* ---- C21
EncOk == ev.o = Enc(ev.s) /\ ev.nul = 1
\* what does not fit is cut at a group, and the rest is terminated
EncsOk == IF ev.r = 0 THEN ev.n < EncLen(Len(ev.s)) + 1 /\ (ev.n > 0 => ev.nul = 1) /\ Pre(Enc(ev.s), ev.o)
          ELSE ev.n >= EncLen(Len(ev.s)) + 1 /\ ev.o = Enc(ev.s) /\ ev.nul = 1
\* texts whose unused bits are not zero may be refused; the size between the decoded and the documented one may be enough
DecOk == IF ~Valid64(ev.s) THEN ev.r = 0
         ELSE LET d == Dec(ev.s) IN
              IF ev.r = 0 THEN ev.n < DecBuf(ev.s) \/ ~Canonical(ev.s)
              ELSE ev.r = Len(d) /\ ev.n >= Len(d) /\ ev.o = d /\ (ev.n > Len(d) /\ Canonical(ev.s) => ev.nul = 1)
H2r == IF \E i \in 1..Len(ev.s) : ~IsHex(ev.s[i]) THEN TRUE ELSE ev.r = (Len(ev.s) + 1) \div 2 /\ ev.o = HexDec(ev.s)
\* ---- C24
Fmt4 == ev.o = V4Text(ev.a) /\ ev.len = Len(ev.o) /\ ev.is # 0 /\ ev.pr # 0 /\ ev.back = ev.a
Is4 == (ev.r # 0) = IsV4(ev.s)
Parse4 == IF Len(FieldsOf(ev.s)) < 4 THEN ev.r = 0
          ELSE IF Octets(ev.s) THEN ev.r # 0 /\ \A k \in 1..4 : ev.b[k] = DecVal(FieldsOf(ev.s)[k], Len(FieldsOf(ev.s)[k]))
          ELSE TRUE
TNext ==
  \/ IsEvent("S")
  \/ IsEvent("enc") /\ EncOk
  \/ IsEvent("encs") /\ EncsOk
  \/ IsEvent("dec") /\ DecOk
  \/ IsEvent("r2h") /\ ev.o = HexEnc(ev.s) /\ ev.nul = 1
  \/ IsEvent("h2r") /\ H2r
  \/ IsEvent("hv") /\ (IsHex(ev.c) => ev.r = HVal(ev.c))
  \/ IsEvent("sizes") /\ ev.eb = EncLen(ev.n) /\ ev.es = EncLen(ev.n) + 1 /\ ev.db = 3 * (ev.n \div 4) /\ ev.ds = 1 + 3 * (ev.n \div 4)
  \/ IsEvent("fmt4") /\ Fmt4
  \/ IsEvent("is4") /\ Is4
  \/ IsEvent("parse4") /\ Parse4
  \/ Done
=============================================================================
