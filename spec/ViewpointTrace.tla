--------------------------- MODULE ViewpointTrace ----------------------------
(* A problem run as it is (first) and as seen from elsewhere: in every node   *)
(* the fields and rates of change are those of the first run, seen from there.*)
EXTENDS Viewpoint, TraceBase
VARIABLES prob, first
Abs(x) == IF x < 0 THEN -x ELSE x
TraceInit == l = 1 /\ prob = <<>> /\ first = 0
Begin == Consume("begin") /\ prob' = Ev.p /\ first' = 0
Near(m, den, a, b) ==       \* six components each
  /\ LET e == Electric(m, <<a[1], a[2], a[3]>>) IN \A i \in D3 : Abs(e[i] - den * b[i]) <= den * prob.slack
  /\ LET h == Magnetic(m, <<a[4], a[5], a[6]>>) IN \A i \in D3 : Abs(h[i] - den * b[3 + i]) <= den * prob.slack
SameSeen(m, den, a, b) ==
  /\ a.name = b.name /\ Len(a.v) = Len(b.v)
  /\ \A c \in DOMAIN a.v : /\ Len(a.v[c]) = Len(b.v[c])
                           /\ \A i \in DOMAIN a.v[c] : Near(m, den, a.v[c][i], b.v[c][i])
Agree(m, den, a, b) == Len(a) = Len(b) /\ Len(a) > 0 /\ \A w \in DOMAIN a : SameSeen(m, den, a[w], b[w])
Run == /\ Consume("view") /\ Isometry(Ev.m, Ev.den) = TRUE /\ Ev.out = 0
       /\ IF first = 0 THEN first' = l
          ELSE Agree(Ev.m, Ev.den, Trace[first].what, Ev.what) = TRUE /\ UNCHANGED first
       /\ UNCHANGED prob
TraceNext == Begin \/ Run
TraceSpec == TraceInit /\ [][TraceNext]_<<prob, first, l>>
=============================================================================
