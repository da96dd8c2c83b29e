------------------------------ MODULE FitTrace -------------------------------
(* Fits returned by the real code.  First it is asked with growing limits and *)
(* no tolerance, which shows the candidates one by one as far as they matter; *)
(* then with tolerances, when the outcome has to be the specified one.        *)
(* Errors and tolerances come as ranks in one common order.  Some candidates  *)
(* are known beforehand, with an error that is no less than theirs: those     *)
(* that are stable beyond rounding.  No search may do worse than they.        *)
EXTENDS Fit, TraceBase
VARIABLE known    \* [n, err] of candidates known to be stable

TraceInit == known = {} /\ limit = 0 /\ tol = 0 /\ cand = <<>> /\ best = 0 /\ done = FALSE /\ l = 1

Begin == /\ Consume("begin")
         /\ limit' = Ev.p.limit /\ tol' = 0 /\ cand' = <<>> /\ best' = 0 /\ done' = FALSE
         /\ known' = {}

Known == /\ Consume("known") /\ cand = <<>> /\ Ev.n \in 1..limit
         /\ known' = known \union {[n |-> Ev.n, err |-> Ev.err]}
         /\ UNCHANGED vars

Within(m) == {k \in known : k.n <= m}
NoWorse(e) == \A k \in Within(e.limit) :
                /\ e.n > 0 /\ (e.err <= k.err \/ e.err < e.tol)
                /\ IF k.err < e.tol THEN e.n <= k.n /\ e.err < e.tol ELSE TRUE

(* A fit delivers what it says.                                               *)
Honest(e) == /\ e.poles = e.n /\ e.residues = e.n
             /\ IF e.n = 0 THEN ~e.stable ELSE e.stable /\ e.growing = 0 /\ e.off = 0

Limited == /\ Consume("limited") /\ ~done /\ Len(cand) < limit
           /\ Ev.limit = Len(cand) + 1 /\ Honest(Ev) /\ NoWorse(Ev) /\ UNCHANGED known
           /\ LET c == [stable |-> TRUE, err |-> Ev.err]
              IN IF Ev.n = Ev.limit
                 THEN Better(best, c) /\ Try(c)
                 ELSE \* the new candidate changed nothing
                      /\ Ev.n = best
                      /\ IF best > 0 THEN Ev.err = cand[best].err ELSE TRUE
                      /\ Try([stable |-> FALSE, err |-> 0])

Asked == /\ Consume("asked") /\ Len(cand) = limit /\ Honest(Ev) /\ NoWorse(Ev)
         /\ Ev.n = Outcome(cand, Ev.limit, Ev.tol)
         /\ IF Ev.n > 0 THEN Ev.err = cand[Ev.n].err ELSE TRUE
         /\ UNCHANGED <<vars, known>>

TraceNext == Begin \/ Known \/ Limited \/ Asked
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, known, l>>
=============================================================================
