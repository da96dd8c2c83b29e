----------------------------- MODULE SolverRunMC -----------------------------
(* Exhaustive exploration of the time loop for small problems.                *)
EXTENDS SolverRun, TLC, FiniteSets

CONSTANTS MaxDt, MaxTf, MaxInterval, MaxSaves

ProbeKinds == [steps : 1..MaxInterval, saves : {0}] \cup [steps : {1}, saves : 1..MaxSaves]
MorKinds == { m \in [start : 0..MaxTf, final : 0..MaxTf + 1, saves : 0..MaxSaves] : m.start <= m.final }

Problems == [dt : 1..MaxDt, tf : 0..MaxTf, probes : {<<a>> : a \in ProbeKinds}, mor : {<<m>> : m \in MorKinds}]

Init == Idle
Next == \/ (phase = "idle" /\ \E p \in Problems : Start(p))
        \/ Step
        \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Finish)

Terminates == [](phase = "running" => <>(phase = "done" /\ t = prob.tf))
=============================================================================
