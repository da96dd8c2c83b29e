---------------------------- MODULE ImplicitTrace ----------------------------
(* Stage solves of the real right-hand side, one after another.               *)
EXTENDS Implicit, TraceBase
VARIABLES prob, answers     \* answers: for each question the line that answered it first
TraceInit == l = 1 /\ prob = <<>> /\ answers = <<>>
Begin == Consume("begin") /\ prob' = Ev.p /\ answers' = <<>>
Question == <<Ev.dt, Ev.x, Ev.t>>
Solved == /\ Consume("solve")
          /\ Ev.res <= prob.slack           \* how far k is from rate(x + dt k, t)
          /\ Ev.size > 0
          /\ LET q == Question IN
             IF q \in DOMAIN answers
             THEN /\ \A i \in DOMAIN Ev.k : Abs(Ev.k[i] - Trace[answers[q]].k[i]) <= prob.slack
                  /\ answers' = answers
             ELSE answers' = [r \in DOMAIN answers \cup {q} |-> IF r = q THEN l ELSE answers[r]]
          /\ UNCHANGED prob
Stages == Consume("stage") /\ StageRight(prob.g, Ev.y, Ev.k) /\ UNCHANGED <<prob, answers>>
(* a plain evaluation gives what it gave before *)
Rated == /\ Consume("rate")
         /\ Ev.off = 0
         /\ UNCHANGED <<prob, answers>>
TraceNext == Begin \/ Solved \/ Stages \/ Rated
TraceSpec == TraceInit /\ [][TraceNext]_<<prob, answers, l>>
=============================================================================
