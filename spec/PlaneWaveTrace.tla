--------------------------- MODULE PlaneWaveTrace ----------------------------
(* Plane waves of the real code.                                              *)
EXTENDS PlaneWave, TraceBase
TraceInit == Idle /\ l = 1
Begin == Consume("begin") /\ Launch(Ev.p.q, Ev.p.spec, Ev.p.sk, Ev.p.sp)
Sampled == /\ Consume("sample")
           /\ Sample(Ev.r, Ev.j)
           /\ Ev.E = FieldE(wave, Ev.r, Ev.j)
           /\ Ev.H = FieldH(wave, Ev.r, Ev.j)
(* Waves with other forms, built from a case: the residuals of the relations  *)
(* between the two fields and the direction, in units of 1e-9.                *)
Related == /\ Consume("related")
           /\ Ev.res = [k \in 1..7 |-> 0]
           /\ UNCHANGED <<wave, seen>>
TraceNext == Begin \/ Sampled \/ Related
TraceSpec == TraceInit /\ [][TraceNext]_<<wave, seen, l>>
=============================================================================
