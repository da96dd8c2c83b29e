---------------------------- MODULE StepSizeTrace ----------------------------
(* Steps the solver selected.  The limits of the parts are not known before:  *)
(* they are what the solver selects for a part alone.                         *)
EXTENDS StepSize, TraceBase
VARIABLES asks, limit, next
vars == <<asks, limit, next>>
TraceInit == l = 1 /\ asks = <<>> /\ limit = <<>> /\ next = 1
Begin == Consume("begin") /\ asks' = Ev.p.asks /\ limit' = <<>> /\ next' = 1

Range(s) == {s[i] : i \in DOMAIN s}
Asked == LET a == asks[next] IN [a EXCEPT !.parts = Range(@)]
Abs(x) == IF x < 0 THEN -x ELSE x
Answer == /\ Ev.status = 0 /\ Len(Ev.dts) = asks[next].ranks
          /\ \A r \in DOMAIN Ev.dts : Ev.dts[r] > 0 /\ Ev.dts[r] = Ev.dts[1]
Knows(q, o) == q \in DOMAIN limit /\ o \in DOMAIN limit[q]
Learn == LET q == CHOOSE x \in Asked.parts : TRUE
             old == IF q \in DOMAIN limit THEN limit[q] ELSE <<>>
         IN limit' = (q :> ((Asked.order :> Ev.dts[1]) @@ old)) @@ limit
First == /\ Consume("chose") /\ Answer
         /\ Asked.given = 0 /\ Asked.cfl = 100 /\ Asked.scale = <<1, 1>> /\ Cardinality(Asked.parts) = 1
         /\ \A q \in Asked.parts : ~Knows(q, Asked.order)
         /\ Learn /\ Finer(limit') /\ next' = next + 1 /\ UNCHANGED asks
Again == /\ Consume("chose") /\ Answer
         /\ Asked.given = 0 /\ \A q \in Asked.parts : Knows(q, Asked.order)
         /\ Abs(Ev.dts[1] * Den(Asked) - Num(Asked, limit)) <= Den(Asked) + Asked.cfl * Asked.scale[1]
         /\ next' = next + 1 /\ UNCHANGED <<asks, limit>>
Declared == /\ Consume("chose") /\ Answer
            /\ Asked.given # 0 /\ Abs(Ev.dts[1] - Asked.given) <= 1
            /\ next' = next + 1 /\ UNCHANGED <<asks, limit>>
TraceNext == Begin \/ First \/ Again \/ Declared
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
