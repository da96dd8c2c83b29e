----------------------------- MODULE LayerTrace -----------------------------
(* Steps of real problems with thin layers, with every step of the layers'    *)
(* own solvers, rates asked for at odd moments, and the fields after steps.   *)
EXTENDS LayerStates, TraceBase
VARIABLES case, layered, stored, todo, fresh, open, base, dt, still, ask, rates, finals

tvars == <<case, layered, stored, todo, fresh, open, base, dt, still, ask, rates, finals, l>>
None == <<>>
TraceInit == /\ l = 1 /\ case = <<>> /\ layered = {} /\ stored = <<>> /\ todo = {} /\ fresh = <<>> /\ open = <<>>
             /\ base = 0 /\ dt = 0 /\ still = FALSE /\ ask = -1 /\ rates = <<>> /\ finals = <<>>
Begin == /\ Consume("begin") /\ case' = Ev.p /\ layered' = {} /\ stored' = <<>> /\ todo' = {} /\ fresh' = <<>> /\ open' = <<>>
         /\ base' = 0 /\ dt' = 0 /\ still' = FALSE /\ ask' = -1 /\ rates' = <<>> /\ finals' = <<>>
Variant == /\ Consume("variant") /\ layered' = {Ev.layered[i] : i \in DOMAIN Ev.layered}
           /\ stored' = [i \in 1..Ev.nodes |-> 0] /\ todo' = {} /\ fresh' = <<>> /\ open' = <<>>
           /\ base' = 0 /\ dt' = 0 /\ still' = FALSE /\ ask' = -1 /\ UNCHANGED <<case, rates, finals>>

AtTick(a, b) == a - b \in -1..1

(* ---- a layer's own steps -------------------------------------------------- *)
Chain(th) == open[th]
With(th, c) == [q \in DOMAIN open \cup {th} |-> IF q = th THEN c ELSE open[q]]
\* from the stored state of some layer, which is left alone
TrySub ==
  /\ Consume("sub") /\ Ev.phase = "trial"
  /\ Ev.to > Ev.from
  /\ IF AtTick(Ev.from, base)
     THEN (\E i \in DOMAIN stored : stored[i] = Ev.in) /\ open' = With(Ev.th, [cur |-> Ev.out, t |-> Ev.to, i |-> 0])
     ELSE /\ Ev.th \in DOMAIN open
          /\ open[Ev.th].cur = Ev.in /\ AtTick(open[Ev.th].t, Ev.from)
          /\ open' = With(Ev.th, [cur |-> Ev.out, t |-> Ev.to, i |-> 0])
  /\ UNCHANGED <<case, layered, stored, todo, fresh, base, dt, still, ask, rates, finals>>
\* each layer once, over the whole step
AcceptSub ==
  /\ Consume("sub") /\ Ev.phase = "accept"
  /\ LET begins == AtTick(Ev.from, base)
         i == IF begins THEN (IF \E j \in todo : stored[j] = Ev.in THEN CHOOSE j \in todo : stored[j] = Ev.in ELSE 0)
              ELSE IF Ev.th \in DOMAIN open THEN open[Ev.th].i ELSE 0
     IN /\ i # 0
        /\ ~begins => open[Ev.th].cur = Ev.in /\ AtTick(open[Ev.th].t, Ev.from)
        /\ todo' = todo \ {i}
        /\ open' = With(Ev.th, [cur |-> Ev.out, t |-> Ev.to, i |-> i])
        /\ fresh' = IF AtTick(Ev.to, base + dt) THEN [fresh EXCEPT ![i] = Ev.out] ELSE fresh
  /\ UNCHANGED <<case, layered, stored, base, dt, still, ask, rates, finals>>

(* ---- questions ------------------------------------------------------------ *)
Asked == /\ Consume("eval") /\ ask = -1 /\ ask' = Ev.at /\ open' = <<>>
         /\ UNCHANGED <<case, layered, stored, todo, fresh, base, dt, still, rates, finals>>
Key == <<Ev.step, Ev.at, Ev.seed>>
\* the response of several faces is the sum of their single responses
Known(S) == <<Key, S>> \in DOMAIN rates
Out(S) == Trace[rates[<<Key, S>>]].out
RECURSIVE Sum(_, _)
Sum(S, i) == IF S = {} THEN Out({})[i] ELSE LET t == CHOOSE t \in S : TRUE IN Out({t})[i] - Out({})[i] + Sum(S \ {t}, i)
AddsUp(out) ==
  IF Cardinality(layered) < 2 \/ ~Known({}) \/ \E t \in layered : ~Known({t}) THEN TRUE
  ELSE \A i \in DOMAIN out : LET d == out[i] - Sum(layered, i) IN d <= 8 /\ d >= -8
Same(a, b) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : Close(a[i], b[i])
Answered ==
  /\ Consume("rate") /\ ask = Ev.at /\ ask' = -1
  /\ \A th \in DOMAIN open : AtTick(open[th].t, base + ask)
  /\ AddsUp(Ev.out)
  /\ IF Known(layered)
     THEN Same(Out(layered), Ev.out) /\ UNCHANGED rates
     ELSE rates' = [q \in DOMAIN rates \cup {<<Key, layered>>} |-> IF q = <<Key, layered>> THEN l ELSE rates[q]]
  /\ open' = <<>>
  /\ UNCHANGED <<case, layered, stored, todo, fresh, base, dt, still, finals>>

(* ---- steps ------------------------------------------------------------------ *)
Step == /\ Consume("step") /\ ask = -1 /\ AtTick(Ev.base, base) /\ dt' = Ev.dt /\ still' = Ev.still
        /\ todo' = DOMAIN stored /\ fresh' = [i \in DOMAIN stored |-> -1] /\ open' = <<>>
        /\ UNCHANGED <<case, layered, stored, base, ask, rates, finals>>
Accepted ==
  /\ Consume("accepted") /\ AtTick(Ev.to, base + dt)
  /\ \A i \in DOMAIN stored : IF i \in todo THEN still /\ Ev.still /\ stored[i] = 0 ELSE fresh[i] # -1
  /\ stored' = [i \in DOMAIN stored |-> IF i \in todo THEN stored[i] ELSE fresh[i]]
  /\ base' = Ev.to
  /\ IF <<Ev.k, layered>> \in DOMAIN finals
     THEN /\ Same(Trace[finals[<<Ev.k, layered>>]].x, Ev.x)
          /\ case.judge = "threads" => Trace[finals[<<Ev.k, layered>>]].hash = Ev.hash
          /\ UNCHANGED finals
     ELSE finals' = [q \in DOMAIN finals \cup {<<Ev.k, layered>>} |-> IF q = <<Ev.k, layered>> THEN l ELSE finals[q]]
  /\ open' = <<>> /\ UNCHANGED <<case, layered, todo, fresh, dt, still, ask, rates>>

TraceNext == Begin \/ Variant \/ TrySub \/ AcceptSub \/ Asked \/ Answered \/ Step \/ Accepted
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
