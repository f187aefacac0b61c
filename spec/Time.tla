-------------------------------- MODULE Time --------------------------------
(* C30.  Durations and instants.  Large values are sequences of digits in   *)
(* base G = 10^9, most significant first; signed ones as [neg, d].          *)
EXTENDS Integers, Sequences
G == 1000000000
Add3(a, b) == LET s3 == a[3] + b[3]  s2 == a[2] + b[2] + (s3 \div G)  s1 == a[1] + b[1] + (s2 \div G) IN <<s1, s2 % G, s3 % G>>
RECURSIVE Sum3(_)
Sum3(s) == IF s = <<>> THEN <<0, 0, 0>> ELSE Add3(s[1], Sum3(Tail(s)))
\* n (three digits) times 10^6 or 10^3
Mul6(n) == <<(n[1] % 1000) * 1000000 + n[2] \div 1000, (n[2] % 1000) * 1000000 + n[3] \div 1000, (n[3] % 1000) * 1000000>>
Mul3(n) == <<(n[1] % 1000000) * 1000 + n[2] \div 1000000, (n[2] % 1000000) * 1000 + n[3] \div 1000000, (n[3] % 1000000) * 1000>>
\* difference of two instants (whole part, fraction in 0..B-1) as a signed,
\* normalised pair
Diff(as, af, bs, bf, B) ==
  LET neg == as < bs \/ (as = bs /\ af < bf)
      xs == IF neg THEN bs - as ELSE as - bs   xf == IF neg THEN bf - af ELSE af - bf IN
  IF xf < 0 THEN [neg |-> neg, s |-> xs - 1, f |-> xf + B] ELSE [neg |-> neg, s |-> xs, f |-> xf]
Sgn(neg, d) == [neg |-> IF neg /\ d # <<0, 0, 0>> THEN 1 ELSE 0, d |-> d]
DiffNs(as, an, bs, bn) == LET x == Diff(as, an, bs, bn, G) IN Sgn(x.neg, <<x.s \div G, x.s % G, x.f>>)
MsDig(s, m) == LET t == (s % 1000000) * 1000 + m IN <<0, s \div 1000000 + t \div G, t % G>>
\* elapsed milliseconds; a negative part of a millisecond may go either way
DiffMs(as, au, bs, bu) == LET x == Diff(as, au, bs, bu, 1000000) m == x.f \div 1000 IN
  { Sgn(x.neg, MsDig(x.s, m)) } \cup (IF x.neg /\ x.f % 1000 # 0 THEN { Sgn(TRUE, MsDig(x.s, m + 1)) } ELSE {})
\* the calendar date of a day number (0 = 1970-01-01)
Civil(day) == LET z == day + 719468  era == z \div 146097  doe == z - era * 146097
                  yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
                  doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
                  mp == (5 * doy + 2) \div 153
                  d == doy - (153 * mp + 2) \div 5 + 1
                  m == IF mp < 10 THEN mp + 3 ELSE mp - 9 IN
              <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
Dg(n) == 48 + n
D2(n) == <<Dg(n \div 10), Dg(n % 10)>>
D4(n) == D2(n \div 100) \o D2(n % 100)
\* secs = hi * 10^6 + lo
Text(hi, lo, off) == LET t == hi * 49600 + lo + off  day == hi * 11 + (t \div 86400)  sod == t % 86400  c == Civil(day) IN
   D4(c[1]) \o <<45>> \o D2(c[2]) \o <<45>> \o D2(c[3]) \o <<32>> \o D2(sod \div 3600) \o <<58>> \o D2((sod \div 60) % 60) \o <<58>> \o D2(sod % 60)
=============================================================================
