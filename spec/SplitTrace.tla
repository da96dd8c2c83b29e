------------------------------ MODULE SplitTrace -----------------------------
(* Runs of one problem on one rank (the first) and on several: same states    *)
(* and rates in every element, each element with one owner, one time step.    *)
EXTENDS Integers, Sequences, TraceBase
VARIABLES prob, alone
Abs(x) == IF x < 0 THEN -x ELSE x
TraceInit == l = 1 /\ prob = <<>> /\ alone = 0
Begin == Consume("begin") /\ prob' = Ev.p /\ alone' = 0
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= prob.slack
SameFields(a, b) == /\ a.name = b.name
                    /\ Len(a.v) = Len(b.v)
                    /\ \A c \in DOMAIN a.v : Near(a.v[c], b.v[c])
Run == /\ Consume("run")
       /\ Ev.status = 0
       /\ \A c \in DOMAIN Ev.owners : Ev.owners[c] = 1
       /\ \A r \in DOMAIN Ev.dts : Ev.dts[r] = Ev.dts[1]
       /\ Len(Ev.what) > 0
       /\ IF alone = 0 THEN Ev.ranks = 1 /\ alone' = l
          ELSE LET ref == Trace[alone] IN
               /\ Len(Ev.dts) = Ev.ranks
               /\ Abs(Ev.dts[1] - ref.dts[1]) <= prob.dtslack
               /\ Len(Ev.what) = Len(ref.what)
               /\ \A w \in DOMAIN ref.what : SameFields(ref.what[w], Ev.what[w])
               /\ alone' = alone
       /\ UNCHANGED prob
TraceNext == Begin \/ Run
TraceSpec == TraceInit /\ [][TraceNext]_<<prob, alone, l>>
=============================================================================
