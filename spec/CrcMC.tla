-------------------------------- MODULE CrcMC -------------------------------
(* CRC by slicing four symbols at a time with four tables plus a symbol     *)
(* tail, in a small instance (8-bit state, 2-bit symbols), against the bit  *)
(* by bit definition: for every polynomial in Polys, every state and every  *)
(* chunk; and RC4 with a box of N entries.                                  *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC, Json
CONSTANTS Polys, MaxLen, MaxChunks, N, KeyLens
VARIABLES p, s, ref, data, chunks, st
vars == <<p, s, ref, data, chunks, st>>
Bit(q, x) == IF x % 2 = 1 THEN (x \div 2) ^^ q ELSE x \div 2
Sym(q, x) == Bit(q, Bit(q, x))                       \* one symbol's worth of shifts
T0 == [q \in Polys |-> [i \in 0..3 |-> Sym(q, i)]]
T1 == [q \in Polys |-> [i \in 0..3 |-> Sym(q, T0[q][i])]]
T2 == [q \in Polys |-> [i \in 0..3 |-> Sym(q, T1[q][i])]]
T3 == [q \in Polys |-> [i \in 0..3 |-> Sym(q, T2[q][i])]]
Sl(x, k) == (x \div (4 ^ k)) % 4
Four(q, x, b) == (T0[q][Sl(x, 3) ^^ b[4]] ^^ T1[q][Sl(x, 2) ^^ b[3]]) ^^ (T2[q][Sl(x, 1) ^^ b[2]] ^^ T3[q][Sl(x, 0) ^^ b[1]])
One(q, x, c) == (x \div 4) ^^ T0[q][(x % 4) ^^ c]
RECURSIVE Upd(_, _, _)
Upd(q, x, b) == IF Len(b) >= 4 THEN Upd(q, Four(q, x, b), SubSeq(b, 5, Len(b))) ELSE FoldLeft(LAMBDA a, c : One(q, a, c), x, b)
Ref(q, x, b) == FoldLeft(LAMBDA a, c : Sym(q, a ^^ c), x, b)
MCInit == p \in Polys /\ s \in {0, 1, 90, 255} /\ ref = s /\ data = <<>> /\ chunks = <<>> /\ st = "crc"
Chunk(n) == \E b \in [1..n -> {0, 1, 2, 3}] :
            /\ Len(data) + n <= MaxLen /\ Len(chunks) < MaxChunks
            /\ s' = Upd(p, s, b) /\ ref' = Ref(p, ref, b) /\ data' = data \o b /\ chunks' = Append(chunks, n) /\ UNCHANGED <<p, st>>
Out == PrintT("@S" \o ToJson(chunks))
MCNext == (\E n \in 0..MaxLen : Chunk(n))
\* RC4: key setup and key stream over a box of N entries
Swp(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
KSetup(k) == FoldLeft(LAMBDA a, i : LET j == (a[2] + a[1][i - 1] + k[((i - 1) % Len(k)) + 1]) % N IN <<Swp(a[1], i - 1, j), j>>, <<[x \in 0..N - 1 |-> x], 0>>, [i \in 1..N |-> i])[1]
Stream(k, n) == FoldLeft(LAMBDA a, i : LET y == (a[2] + 1) % N z == (a[3] + a[1][y]) % N t == Swp(a[1], y, z) IN <<t, y, z, Append(a[4], t[(t[y] + t[z]) % N])>>, <<KSetup(k), 0, 0, <<>>>>, [i \in 1..n |-> i])
Perm(f) == { f[i] : i \in 0..N - 1 } = 0..N - 1
ASSUME \A l \in KeyLens : \A k \in [1..l -> 0..N - 1] : Perm(KSetup(k)) /\ Perm(Stream(k, 6)[1]) /\
          (\A n \in 0..5 : SubSeq(Stream(k, 6)[4], 1, n) = Stream(k, n)[4])
Slicing == s = ref
\* the state is also that of feeding all data at once, whatever the chunks
View == <<p, s, ref, chunks>>
Emit == chunks # <<>> /\ p = 184 /\ s % 8 = 3 => Out
=============================================================================
