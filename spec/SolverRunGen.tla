----------------------------- MODULE SolverRunGen ----------------------------
(* Writes the problems the real solver is asked to run: every combination of  *)
(* step, final time and call pattern within the bounds, with probes drawn at  *)
(* random from every kind and schedule.                                       *)
EXTENDS SolverRun, TLC, FiniteSets, Sequences, SequencesExt, Randomization, Json, IOUtils

CONSTANTS MaxDt, MaxTf, MaxInterval, MaxSaves

Kinds == {"field", "point", "view", "near", "snap", "surf"}
Dyadic == {"1/64", "1/128"}
Decimal == {"1/10", "1/100", "3/1000", "7/300"}

BySteps == [kind : Kinds, steps : 1..MaxInterval, saves : {0}]
BySaves == [kind : Kinds, steps : {1}, saves : 1..MaxSaves]
Windows == { m \in [start : 0..MaxTf, final : 0..MaxTf + 1, saves : 0..MaxSaves] : m.start <= m.final }

N(p) == TotalSteps(p)

(* 0 stands for "run", n > 0 for n single steps.                              *)
Calls(n) == {<<0>>, <<0, 0>>}
  \cup {<<k, 0>> : k \in 1..n}
  \cup {<<k>> : k \in 1..n}
  \cup {<<a, b, 0, 0>> : a \in 1..(n \div 2), b \in 1..(n \div 2)}

Complete(n, c) == \/ \E i \in DOMAIN c : c[i] = 0
                  \/ n = 0
                  \/ (Len(c) = 1 /\ c[1] = n)

Clock == UNION { UNION { { [dt |-> d, tf |-> f, calls |-> c, complete |-> Complete(CeilDiv(f, d), c)]
                           : c \in Calls(CeilDiv(f, d)) } : f \in 0..MaxTf } : d \in 1..MaxDt }

Draw(S) == CHOOSE x \in RandomSubset(1, S) : TRUE

(* Domain snapshots of one case share one directory, so at most one of them.  *)
NoSnap(S) == {x \in S : x.kind # "snap"}

Scenario(k, unit, ps, ms, ode, srcd, auto) ==
  [dt |-> k.dt, tf |-> k.tf, calls |-> k.calls, complete |-> k.complete, unit |-> unit,
   probes |-> ps, mor |-> ms, ode |-> ode, sourced |-> srcd, auto |-> auto]

ForClock == { Scenario(k, Draw(Dyadic \cup Decimal), <<>>, <<>>, Draw({0, 0, 1, 2, 3, 4, 5, 6}), TRUE, Draw({FALSE, FALSE, TRUE})) : k \in Clock }

ForProbes == { LET u == Draw(Dyadic \cup Decimal) S == IF u \in Dyadic THEN BySteps \cup BySaves ELSE BySteps IN
               Scenario(k, u, <<Draw(S), Draw(NoSnap(S)), Draw(NoSnap(S))>>, <<>>, Draw({0, 1}), FALSE, FALSE) : k \in Clock }

ForWindows == { Scenario(k, Draw(Dyadic \cup Decimal), <<>>, <<Draw(Windows), Draw(Windows)>>, 0, FALSE, FALSE) : k \in Clock }

What == CASE IOEnv.WHAT = "clock" -> ForClock [] IOEnv.WHAT = "probes" -> ForProbes [] OTHER -> ForWindows

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(What))

GenInit == Idle
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
