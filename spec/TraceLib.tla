------------------------------ MODULE TraceLib ------------------------------
(* Common part of the trace specifications.  `l` is the next event.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(name) == l <= Len(Trace) /\ Ev.e = name /\ l' = l + 1
Has(f) == f \in DOMAIN Ev
(* One state per consumed event; TLC's diameter counts the initial state.   *)
Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
=============================================================================
