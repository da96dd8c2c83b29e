------------------------------ MODULE SolverRun ------------------------------
(* The time loop of a simulation and everything that is recorded along it.    *)
(*                                                                            *)
(* Time is counted in ticks.  A problem fixes the time step, the final time,  *)
(* the recording probes (an interval in steps, or a number of saves) and the  *)
(* model-order-reduction probes (a window and a number of snapshots).         *)
EXTENDS Integers, Sequences

VARIABLES prob,    \* the problem: [dt, tf, probes, mor]
          t,       \* current time
          cyc,     \* number of steps taken
          rec,     \* rec[i]: what probe i has recorded, a sequence of <<cycle, time>>
          snap,    \* snap[i]: snapshots taken by reduction probe i, same form
          phase    \* "idle", "running" or "done"

vars == <<prob, t, cyc, rec, snap, phase>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

TotalSteps(p) == CeilDiv(p.tf, p.dt)

(* A number of saves becomes an interval through the actual number of steps.  *)
Interval(p, pr) ==
  IF pr.saves > 0 THEN Max(1, TotalSteps(p) \div pr.saves) ELSE pr.steps

Due(p, pr, c, tt) == tt = p.tf \/ c % Interval(p, pr) = 0

RecAt(p, r, c, tt) ==
  [i \in DOMAIN p.probes |->
     IF Due(p, p.probes[i], c, tt) THEN Append(r[i], <<c, tt>>) ELSE r[i]]

(* The k-th instant of a reduction probe is start + k*(final-start)/(saves-1); *)
(* comparisons are written without division.                                  *)
MorDue(m, taken, tt) ==
  /\ m.saves > 0
  /\ m.start <= tt /\ tt <= m.final
  /\ taken < m.saves
  /\ IF m.saves > 1 THEN (tt - m.start) * (m.saves - 1) >= taken * (m.final - m.start)
                    ELSE TRUE

MorAt(p, r, c, tt) ==
  [i \in DOMAIN p.mor |->
     IF MorDue(p.mor[i], Len(r[i]), tt) THEN Append(r[i], <<c, tt>>) ELSE r[i]]

NoRecords(s) == [i \in DOMAIN s |-> <<>>]

Idle ==
  /\ prob = [dt |-> 1, tf |-> 0, probes |-> <<>>, mor |-> <<>>]
  /\ t = 0 /\ cyc = 0 /\ rec = <<>> /\ snap = <<>> /\ phase = "idle"

(* Building the solver records the initial state.                             *)
Start(p) ==
  /\ phase \in {"idle", "done"}
  /\ prob' = p
  /\ t' = 0 /\ cyc' = 0
  /\ rec' = RecAt(p, NoRecords(p.probes), 0, 0)
  /\ snap' = MorAt(p, NoRecords(p.mor), 0, 0)
  /\ phase' = "running"

(* One step: the selected step, shortened so that the final time is hit.      *)
StepSize == Min(prob.dt, prob.tf - t)

StepTo(tt) ==
  /\ phase = "running"
  /\ t' = tt
  /\ cyc' = cyc + 1
  /\ rec' = RecAt(prob, rec, cyc + 1, tt)
  /\ snap' = MorAt(prob, snap, cyc + 1, tt)
  /\ UNCHANGED <<prob, phase>>

Step == t < prob.tf /\ StepTo(t + StepSize)

(* The run is over only at the final time; a caller stepping by hand may stop *)
(* earlier.                                                                   *)
Finish ==
  /\ phase = "running"
  /\ t = prob.tf
  /\ phase' = "done"
  /\ UNCHANGED <<prob, t, cyc, rec, snap>>

Abandon ==
  /\ phase = "running"
  /\ phase' = "done"
  /\ UNCHANGED <<prob, t, cyc, rec, snap>>

-----------------------------------------------------------------------------
(* The listed guarantees, as properties of this state machine.                *)

NeverPastFinal == t <= prob.tf

StepCount == /\ cyc <= TotalSteps(prob)
             /\ t = prob.tf => cyc = TotalSteps(prob)

FullSteps == t = Min(cyc * prob.dt, prob.tf)

RecOk(i) ==
  LET r == rec[i] IN
  /\ Len(r) >= 1 /\ r[1] = <<0, 0>>
  /\ \A k \in 1..Len(r) - 1 : r[k][1] < r[k + 1][1] /\ r[k][2] < r[k + 1][2]
  /\ \A k \in 1..Len(r) : r[k][2] = Min(r[k][1] * prob.dt, prob.tf)
  /\ \A c \in 0..cyc : (\E k \in 1..Len(r) : r[k][1] = c)
        <=> (c % Interval(prob, prob.probes[i]) = 0 \/ Min(c * prob.dt, prob.tf) = prob.tf)

RecordsOk == phase # "idle" => \A i \in DOMAIN rec : RecOk(i)

FinalRecorded == phase # "idle" /\ t = prob.tf =>
  \A i \in DOMAIN rec : rec[i][Len(rec[i])] = <<cyc, t>>

MorOk(i) ==
  LET m == prob.mor[i] r == snap[i] IN
  /\ Len(r) <= Max(m.saves, 0)
  /\ \A k \in 1..Len(r) : m.start <= r[k][2] /\ r[k][2] <= m.final
  /\ \A k \in 1..Len(r) - 1 : r[k][1] < r[k + 1][1] /\ r[k][2] < r[k + 1][2]
  /\ m.saves > 1 => \A k \in 1..Len(r) :
        (r[k][2] - m.start) * (m.saves - 1) >= (k - 1) * (m.final - m.start)

MorsOk == phase # "idle" => \A i \in DOMAIN snap : MorOk(i)

(* Asking for n saves gives at least n records when there are enough steps,   *)
(* and never an unbounded number of them.                                     *)
SavesOk == phase # "idle" /\ t = prob.tf =>
  \A i \in DOMAIN rec :
    LET n == prob.probes[i].saves IN
    n > 0 => /\ TotalSteps(prob) >= n => Len(rec[i]) >= n
             /\ Len(rec[i]) <= 2 * n + 1
=============================================================================
