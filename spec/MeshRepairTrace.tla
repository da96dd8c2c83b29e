--------------------------- MODULE MeshRepairTrace ---------------------------
(* Files repaired by the real loader.                                         *)
EXTENDS MeshRepair, TraceBase

TraceInit == Idle /\ l = 1
Begin == Consume("begin") /\ Given(Ev.p.els)

(* After a load: the entities found in the file, the count written in front   *)
(* of them, whether their numbers are all different and whether every other   *)
(* line of the file is as it was.                                             *)
Loaded == /\ Consume("file")
          /\ Load
          /\ Ev.els = file'
          /\ Ev.count = Len(file')
          /\ Ev.distinct /\ Ev.rest

(* Seen on disk while the loader was at work: the file as it was or repaired, *)
(* never anything between.                                                    *)
Whole(e, f) == e.els = f /\ e.count = Len(f) /\ e.distinct /\ e.rest
Moment == Consume("moment") /\ (Whole(Ev, file) \/ Whole(Ev, Repaired(file))) /\ UNCHANGED vars
Watched == Consume("watched") /\ UNCHANGED vars

(* What the mesh then consists of.                                            *)
OfDim(d) == SelectSeq(file, LAMBDA e : DimOf(e.t) = d)
Tags(s) == [k \in DOMAIN s |-> s[k].g[2]]
Mesh == /\ Consume("mesh")
        /\ Ev.dim = Dim(file)
        /\ Ev.elements = Tags(OfDim(Dim(file)))
        /\ Ev.boundary = Tags(OfDim(Dim(file) - 1))
        /\ UNCHANGED vars

TraceNext == Begin \/ Loaded \/ Mesh \/ Moment \/ Watched
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
