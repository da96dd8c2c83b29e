---------------------------- MODULE Superposition ----------------------------
(* Sources of two kinds act on a problem: initial fields give it its initial  *)
(* state, total-field sources add to its rate of change.  What is known about *)
(* a problem is its rate without any source and the effect each source has    *)
(* alone; the effect of any sequence of sources follows.                      *)
EXTENDS Integers, Sequences
CONSTANTS Slack           \* rounding, in units of the recorded numbers
VARIABLES kinds,          \* kind of each source, "initial" or "total"
          base,           \* rates without a source, one vector for each asked time
          alone           \* partial function: source -> [init, rates] when alone

vars == <<kinds, base, alone>>
Unknown == <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Zero(v) == \A i \in DOMAIN v : v[i] = 0
Close(u, v, d) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Abs(u[i] - v[i]) <= d
CloseAll(u, v, d) == Len(u) = Len(v) /\ \A t \in DOMAIN u : Close(u[t], v[t], d)

RECURSIVE InitSum(_, _), RateSum(_, _, _)
(* component i of the initial state of the sources in sequence s *)
InitSum(s, i) == IF s = <<>> THEN 0 ELSE alone[Head(s)].init[i] + InitSum(Tail(s), i)
(* what the sources in s add to component i of the rate at the t-th time *)
RateSum(s, t, i) == IF s = <<>> THEN 0
                    ELSE alone[Head(s)].rates[t][i] - base[t][i] + RateSum(Tail(s), t, i)

Start(ks) == /\ kinds' = ks
             /\ base' = Unknown
             /\ alone' = [k \in {} |-> 0]

Nothing(e) == /\ base = Unknown
              /\ Zero(e.init)
              /\ base' = e.rates
              /\ UNCHANGED <<kinds, alone>>

Alone(k, e) == /\ base # Unknown
               /\ k \in DOMAIN kinds
               /\ kinds[k] = "total" => Zero(e.init)
               /\ kinds[k] = "initial" => CloseAll(e.rates, base, Slack)
               /\ Len(e.rates) = Len(base)
               /\ alone' = [q \in DOMAIN alone \cup {k} |-> IF q = k THEN e ELSE alone[q]]
               /\ UNCHANGED <<kinds, base>>

Sums(s, e) == LET d == Slack * (Len(s) + 1) IN
              /\ \A i \in DOMAIN e.init : Abs(e.init[i] - InitSum(s, i)) <= d
              /\ Len(e.rates) = Len(base)
              /\ \A t \in DOMAIN e.rates : \A i \in DOMAIN e.rates[t] :
                   Abs(e.rates[t][i] - base[t][i] - RateSum(s, t, i)) <= d

Together(s, e) == /\ Len(s) >= 2
                  /\ \A j \in DOMAIN s : s[j] \in DOMAIN alone
                  /\ Sums(s, e)
                  /\ UNCHANGED vars
=============================================================================
