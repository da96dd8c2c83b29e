------------------------------ MODULE TfsfTrace ------------------------------
(* What the real solver injects into elements at rest, and the mesh before    *)
(* and after the surface was set up.                                          *)
EXTENDS Tfsf, TraceBase
VARIABLES prob, mesh
TraceInit == l = 1 /\ prob = <<>> /\ mesh = <<>>
Begin == Consume("begin") /\ prob' = Ev.p /\ mesh' = <<>>
Before == Consume("before") /\ mesh' = Ev.mesh /\ UNCHANGED prob
After == Consume("after") /\ Ev.mesh = mesh /\ UNCHANGED <<prob, mesh>>
Inject == /\ Consume("inject")
          /\ InjectedRight(prob, Ev.t, Ev.m, Ev.quiet)
          /\ UNCHANGED <<prob, mesh>>
Still == Consume("still") /\ StaysStill(prob, Ev.top) /\ UNCHANGED <<prob, mesh>>
TraceNext == Begin \/ Before \/ After \/ Inject \/ Still
TraceSpec == TraceInit /\ [][TraceNext]_<<prob, mesh, l>>
=============================================================================
