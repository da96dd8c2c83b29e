----------------------------- MODULE DipoleTrace -----------------------------
(* Fields of real dipole sources around points, in units of a twenty          *)
(* millionth of the largest value there.                                      *)
EXTENDS Dipole, TraceBase
VARIABLES prob, next
TraceInit == l = 1 /\ prob = <<>> /\ next = 1
Begin == Consume("begin") /\ prob' = Ev.p /\ next' = 1
Abs(x) == IF x < 0 THEN -x ELSE x
Small(v, tol) == \A i \in DOMAIN v : Abs(v[i]) <= tol
Near(a, b, tol) == \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
Twice(v) == [i \in DOMAIN v |-> 2 * v[i]]
Field == /\ Consume("field") /\ Ev.out = 0
         /\ Small(Rest(Ev.lines), prob.tol)
         /\ \E i \in 1..6 : Ev.here[i] # 0
         /\ Small(Meridian(Ev.here, prob.points[next].at), 1000)
         /\ Near([i \in 1..6 |-> 5 * Ev.turned[i]], Turned5(Ev.here), 20)
         /\ Near(Ev.longer, Twice(Ev.here), 3)
         /\ Near(Ev.later, Ev.here, 20)
         /\ UNCHANGED <<prob, next>>
Still == /\ Consume("still") /\ Ev.before \in 0..1000 /\ Ev.after \in 0..1000
         /\ next' = next + 1 /\ UNCHANGED prob
TraceNext == Begin \/ Field \/ Still
TraceSpec == TraceInit /\ [][TraceNext]_<<prob, next, l>>
=============================================================================
