--------------------------- MODULE CaseFileTrace ----------------------------
(* Case files given to the real loader.  The scenario carries the file, the  *)
(* names and the mesh; the loader's report is either a refusal or a full     *)
(* account of what it made of the file.                                      *)
EXTENDS CaseFile, TraceBase
VARIABLE case
TraceInit == l = 1 /\ case = <<>>
Begin == Consume("begin") /\ case' = Ev.p
Range(q) == {q[i] : i \in DOMAIN q}
World == [files |-> case.files, look |-> case.look,
          mesh |-> [vol |-> Range(case.vol), bdr |-> Range(case.bdr), cells |-> case.cells, split |-> case.split]]
Loaded == Consume("loaded") /\ Understood(case.c, World) /\ Faithful(case.c, World, Ev) /\ UNCHANGED case
Refused == Consume("refused") /\ ~Understood(case.c, World) /\ UNCHANGED case
TraceNext == Begin \/ Loaded \/ Refused
TraceSpec == TraceInit /\ [][TraceNext]_<<case, l>>
=============================================================================
