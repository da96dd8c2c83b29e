----------------------------- MODULE LaunchTrace -----------------------------
(* Programs that were really started, one after the other in one directory.   *)
(* After each: how it ended, which cases have new or changed results, which   *)
(* of those are complete, what else changed, and the rows of the case that    *)
(* was post-processed.                                                        *)
EXTENDS Launch, TraceBase

Files == "a.json" :> "alpha" @@ "b.json" :> "beta" @@ "post-a.json" :> "alpha" @@ "again-a.json" :> "alpha" @@ "post-b.json" :> "beta"
Cases == {"a.json", "b.json"}

VARIABLE asks
TraceInit == /\ prog = "none" /\ words = <<>> /\ wants = "any" /\ file = Nothing /\ how = "reading"
             /\ done = {} /\ shown = <<>> /\ last = "refused" /\ asks = <<>> /\ l = 1
Begin == /\ Consume("begin") /\ asks' = Ev.p.asks /\ done' = {} /\ shown' = <<>> /\ prog' = "none" /\ words' = <<>>
         /\ wants' = "any" /\ file' = Nothing /\ how' = "reading" /\ last' = "refused"
Started == Consume("start") /\ Start(Ev.prog) /\ UNCHANGED asks
Worded == Consume("word") /\ Word(Ev.w) /\ UNCHANGED asks

Asked(q) == {<<a, f>> : a \in {q.phis[i] : i \in DOMAIN q.phis}, f \in {q.freqs[i] : i \in DOMAIN q.freqs}}
Holds(rows, q) == Len(rows) = Len(q.phis) * Len(q.freqs) /\ {<<rows[i][1], rows[i][2]>> : i \in DOMAIN rows} = Asked(q)
Quiet == Ev.cases = <<>> /\ Ev.rows = <<>> /\ Ev.far = <<>> /\ Ev.other = <<>>
Helped == Consume("exit") /\ Help /\ Ev.help /\ Ev.how # "stuck" /\ Quiet /\ UNCHANGED asks
Failed == Consume("exit") /\ Fail /\ Ev.how = "failed" /\ Quiet /\ UNCHANGED asks
Ran == /\ Consume("exit") /\ Run /\ Ev.how = "fine" /\ Ev.other = <<>>
       /\ Ev.cases = <<CaseOf[file]>> /\ Ev.whole = Ev.cases
       /\ IF prog = "solver" THEN Ev.rows = <<>> /\ Ev.far = <<>>
          ELSE LET q == asks[shown'[CaseOf[file]]] IN Holds(Ev.rows, q) /\ Holds(Ev.far, q)
       /\ UNCHANGED asks
TraceNext == Begin \/ Started \/ Worded \/ Helped \/ Failed \/ Ran
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, asks, l>>
=============================================================================
