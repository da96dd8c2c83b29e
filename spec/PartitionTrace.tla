---------------------------- MODULE PartitionTrace ---------------------------
(* Distributions produced by the real code, checked against Partition.        *)
EXTENDS Partition, TraceBase

AsSet(s) == {s[i] : i \in DOMAIN s}

TraceInit == Idle /\ l = 1

Begin == Consume("begin") /\ Start(Ev.p.ranks, Ev.p.first, AsSet(Ev.p.pairs))

(* The outcome must be reachable by grouping and placing.                     *)
Result == /\ Consume("split")
          /\ phase = "given"
          /\ Outcome(Ev.part)
          /\ part' = Ev.part /\ phase' = "done"
          /\ UNCHANGED <<ranks, first, pairs, open>>

TraceNext == Begin \/ Result
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
