-------------------------- MODULE OperatorFileTrace --------------------------
(* Operators the solver exported and rates of change it computed, entries and *)
(* rates in units of 1/1000, states in units of 1/4.                          *)
EXTENDS OperatorFile, TraceBase
VARIABLES from      \* where the file was recorded
Abs(x) == IF x < 0 THEN -x ELSE x
TraceInit == l = 1 /\ from = 0
Begin == Consume("begin") /\ from' = 0
File == Consume("file") /\ Ev.out = 0 /\ WellFormed(Ev.f) = TRUE /\ from' = l
(* half a unit for each rounded entry, and the digits that are not written *)
Slack(f, x, i) == SumTo(LAMBDA k : Abs(x[Column(f, k)]) + (Abs(Value(f, k)) * Abs(x[Column(f, k)])) \div 100000, Start(f, i) + 1, Start(f, i + 1)) + 4
Agree(f, x, r) == /\ Len(x) = Columns(f) /\ Len(r) = Rows(f)
                  /\ \A i \in 1..Rows(f) : Abs(Times(f, x, i) - 4 * r[i]) <= Slack(f, x, i)
Rate == /\ Consume("rate") /\ from # 0 /\ Ev.out = 0 /\ Ev.same
        /\ Agree(Trace[from].f, Ev.x, Ev.r) = TRUE
        /\ UNCHANGED from
TraceNext == Begin \/ File \/ Rate
TraceSpec == TraceInit /\ [][TraceNext]_<<from, l>>
=============================================================================
