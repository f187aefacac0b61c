------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded traces of the implementation.  A trace is a sequence of *)
(* events; it is cut into chunks at session boundaries (a session starts    *)
(* with an event "S", which re-initialises the specification state), and    *)
(* each chunk is one initial state so that TLC checks them in parallel.     *)
(* Acceptance: every event is consumed.  An event that no specification     *)
(* action accepts leaves the trace specification deadlocked at it.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.TRACE)
Chunks == JsonDeserialize(IOEnv.CHUNKS)
VARIABLES l, hi
tvars == <<l, hi>>
ev == Trace[l]
TraceInit == \E k \in 1..Len(Chunks) : l = Chunks[k][1] /\ hi = Chunks[k][2]
IsEvent(op) == l <= hi /\ ev.op = op /\ l' = l + 1 /\ UNCHANGED hi
(* what TLC prints of a rejected trace's states *)
TAlias == [l |-> l]
Done == l > hi /\ UNCHANGED tvars
=============================================================================
