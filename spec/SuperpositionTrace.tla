-------------------------- MODULE SuperpositionTrace -------------------------
(* Initial states and rates of change of the real solver, with and without    *)
(* sources.                                                                   *)
EXTENDS Superposition, TraceBase
TraceInit == l = 1 /\ kinds = <<>> /\ base = Unknown /\ alone = [k \in {} |-> 0]
Begin == Consume("begin") /\ Start(Ev.p.kinds)
SeenNothing == Consume("seen") /\ Len(Ev.who) = 0 /\ Nothing(Ev)
SeenAlone == Consume("seen") /\ Len(Ev.who) = 1 /\ Alone(Ev.who[1], Ev)
SeenTogether == Consume("seen") /\ Together(Ev.who, Ev)
TraceNext == Begin \/ SeenNothing \/ SeenAlone \/ SeenTogether
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
