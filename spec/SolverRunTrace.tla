---------------------------- MODULE SolverRunTrace ---------------------------
(* Recorded runs of the real solver, checked against SolverRun.               *)
EXTENDS SolverRun, TraceBase

(* Whether the clock itself is judged, or taken as it was observed.           *)
CONSTANT JudgeClock

TraceInit == Idle /\ l = 1

Begin == Consume("begin") /\ Start(Ev.p)

(* Where, within a step, the right-hand side may be evaluated: offsets from   *)
(* the start of the step in ten-thousandths of the step.                      *)
StagesOk(ode, st) ==
  /\ ode # 6 => \A i \in DOMAIN st : st[i] >= 0 /\ st[i] <= 10000
  /\ LET S == {st[i] : i \in DOMAIN st} IN
     CASE ode = 0 -> S \in {{0, 5000, 10000}, {}}
       [] ode = 1 -> S \in {{10000}, {}}
       [] ode = 3 -> S \in {{5000}, {}}
       [] ode = 6 -> S \in {{10686, 5000, -686}, {}}   \* the abscissae of its method
       [] OTHER -> TRUE

(* A step of the integrator: its start, its length, its end, and the time     *)
(* shown to the user afterwards are all those of the specification's clock.   *)
DoStep ==
  /\ JudgeClock
  /\ Consume("step")
  /\ Ev.t0 = t /\ Ev.dt = StepSize
  /\ StagesOk(prob.ode, Ev.stages)
  /\ (prob.sourced /\ prob.ode = 0) => Len(Ev.stages) > 0
  /\ Step
  /\ Ev.t1 = t'

TakeStep == ~JudgeClock /\ Consume("step") /\ StepTo(Ev.t1)

(* The time shown to the user between calls.                                  *)
Shown == Consume("shown") /\ (JudgeClock => Ev.t = t) /\ UNCHANGED vars

(* What a probe left behind: pairs of step and time, each with the step whose *)
(* state the recorded values are those of.                                    *)
Matches(r, got, withCycle) ==
  /\ Len(got) = Len(r)
  /\ \A k \in DOMAIN r :
       /\ withCycle => got[k][1] = r[k][1]
       /\ got[k][2] = r[k][2]
       /\ got[k][3] = r[k][1]

Records ==
  /\ Consume("records")
  /\ \A i \in DOMAIN Ev.rec : Matches(rec[i], Ev.rec[i], TRUE)
  /\ Len(Ev.rec) = Len(rec)
  /\ \A i \in DOMAIN Ev.mor : Matches(snap[i], Ev.mor[i], FALSE)
  /\ Len(Ev.mor) = Len(snap)
  /\ UNCHANGED vars

End == /\ Consume("end")
       /\ JudgeClock => Ev.t = t
       /\ IF prob.complete /\ JudgeClock THEN Finish ELSE Abandon

TraceNext == Begin \/ DoStep \/ TakeStep \/ Shown \/ Records \/ End
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
