----------------------------- MODULE DelayTrace ------------------------------
(* Pulses of sources built by the real driver, watched at points of their     *)
(* surface.  Distances, times and widths are in thousandths; "quiet" is the   *)
(* number of tenths of decades by which the pulse is below its peak when the  *)
(* clock starts, "top" the time of the peak, -1 if that was not seen.           *)
EXTENDS Delay, TraceBase

TraceInit == /\ kind = "planewave" /\ width = 1 /\ faces = <<>> /\ whole = {} /\ seen = <<>>
             /\ lead = {} /\ clock = 0 /\ passed = {} /\ l = 1

AsSet(s) == {s[i] : i \in DOMAIN s}
Off(a, b) == IF a > b THEN a - b ELSE b - a

Begin == /\ Consume("begin")
         /\ kind' = Ev.p.kind /\ width' = Ev.p.width /\ whole' = AsSet(Ev.p.dist) /\ lead' = {}
         /\ UNCHANGED <<faces, seen, clock, passed>>


Watched ==
  /\ Consume("watch")
  /\ UNCHANGED <<kind, width, faces, whole, seen, clock, passed>>
  /\ LET p == Trace[l - 1].p
         n == Len(p.dist)
     IN /\ Len(Ev.quiet) = n /\ Len(Ev.top) = n
        /\ IF p.given
           THEN IF kind = "planewave"
                THEN \* the peak is where it was put
                     /\ \A i \in 1..n : LET at == p.dist[i] - p.mean
                                        IN IF at > width \div 4 /\ at < Soon(width)
                                           THEN Off(Ev.top[i], at) <= p.slack ELSE TRUE
                     /\ lead' = {-p.mean}
                ELSE Ev.differs = 0 /\ lead' = {p.mean}
           ELSE /\ \A i \in 1..n : Ev.quiet[i] >= 60
                /\ IF kind = "planewave"
                   THEN /\ \E i \in 1..n : Ev.top[i] > 0 /\ lead' = {Ev.top[i] - p.dist[i]}
                        /\ \A i \in 1..n : IF Ev.top[i] > 0
                                           THEN \A x \in lead' : Off(Ev.top[i], p.dist[i] + x) <= p.slack ELSE TRUE
                        /\ QuietStart' /\ InTime'
                   ELSE \* every field component has its own peak, up to two widths from the pulse's
                        /\ \A i \in 1..n : Ev.top[i] > 0 /\ Ev.top[i] <= p.dist[i] + Soon(width)
                        /\ lead' = {}

TraceNext == Begin \/ Watched
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
