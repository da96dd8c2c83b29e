--------------------------- MODULE LayerFrameTrace ---------------------------
(* Frames of real layered faces, read off unit fields, and the rates of cells *)
(* next to layers that show each side the field of the other one: these are   *)
(* the rates without any layer.                                               *)
EXTENDS LayerFrame, TraceBase
VARIABLE case
TraceInit == l = 1 /\ case = <<>>
Begin == Consume("begin") /\ case' = Ev.p
U0 == 4096
\* case.faces[i] = [a, b, n, k]: cells on both sides, k times the normal from a to b
Fits(f, ev) ==
  LET n == IF ev.left = f.a THEN f.n ELSE [i \in 1..3 |-> -f.n[i]]
  IN {ev.left, ev.right} = {f.a, f.b} /\ \A j \in 1..4 : FrameRight(ev.maps[j], n, f.k, U0, 8)
Frame == /\ Consume("frame") /\ UNCHANGED case
         /\ ~Ev.mixed
         /\ \E i \in DOMAIN case.faces : Fits(case.faces[i], Ev)
Through == /\ Consume("through") /\ UNCHANGED case
           /\ DOMAIN Ev.plain = DOMAIN Ev.layered
           /\ \A i \in DOMAIN Ev.plain : Within(Ev.plain[i], Ev.layered[i], 2)
TraceNext == Begin \/ Frame \/ Through
TraceSpec == TraceInit /\ [][TraceNext]_<<case, l>>
=============================================================================
