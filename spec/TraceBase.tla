------------------------------ MODULE TraceBase ------------------------------
(* What every trace specification shares: the recorded events, the position   *)
(* of the next one, and the acceptance condition.  A trace is a sequence of   *)
(* scenarios; each starts with a "begin" event that carries its parameters.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

HasEvent(e) == l <= Len(Trace) /\ Trace[l].e = e
Ev == Trace[l]
Consume(e) == HasEvent(e) /\ l' = l + 1

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
