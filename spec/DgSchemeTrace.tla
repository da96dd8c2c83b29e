---------------------------- MODULE DgSchemeTrace ----------------------------
(* Rates of change computed by the real solver.                               *)
EXTENDS DgScheme, TraceBase
VARIABLES prob, rate
TraceInit == l = 1 /\ prob = <<>> /\ rate = <<>>
Begin == Consume("begin") /\ prob' = Ev.p /\ rate' = <<>>
Boxes == /\ Consume("boxes")
         /\ BoxesRight(prob.g, Ev.r)
         /\ UNCHANGED <<prob, rate>>
Balanced == /\ Consume("balance")
            /\ BalanceRight(prob.q, Ev.m)
            /\ UNCHANGED <<prob, rate>>
Smooth == /\ Consume("smooth")
          /\ Len(Ev.r) > 0
          /\ \A n \in DOMAIN Ev.r : SmoothRight(prob.q, Ev.at[n], Ev.r[n])
          /\ UNCHANGED <<prob, rate>>
(* the extremes of twice the power of a state of unit size, over all states; *)
(* the rate of the zero state; the deviation from linearity                  *)
Conserving == /\ prob.q.alpha2 = 0
              /\ \A i \in DOMAIN prob.q.walls : prob.q.walls[i] # "SMA"
              /\ \A c \in DOMAIN prob.q.sig : prob.q.sig[c] = 0
Energy == /\ Consume("energy")
          /\ Ev.rest = 0
          /\ Abs(Ev.nonlin) <= prob.q.slack
          /\ Ev.top <= prob.q.slack
          /\ Conserving => Ev.low >= -prob.q.slack
          /\ UNCHANGED <<prob, rate>>
(* every formulation reports the same rate for the same time and state *)
Rated == /\ Consume("rate")
         /\ LET k == Ev.t IN
            IF k \in DOMAIN rate
            THEN /\ Len(rate[k]) = Len(Ev.r)
                 /\ \A i \in DOMAIN Ev.r : Abs(Ev.r[i] - rate[k][i]) <= prob.slack
                 /\ rate' = rate
            ELSE rate' = [q \in DOMAIN rate \cup {k} |-> IF q = k THEN Ev.r ELSE rate[q]]
         /\ UNCHANGED prob
TraceNext == Begin \/ Boxes \/ Balanced \/ Smooth \/ Energy \/ Rated
TraceSpec == TraceInit /\ [][TraceNext]_<<prob, rate, l>>
=============================================================================
