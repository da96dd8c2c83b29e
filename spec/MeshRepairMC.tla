---------------------------- MODULE MeshRepairMC -----------------------------
EXTENDS MeshRepair, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxLen, MaxTag, MaxLoads
Types == {15, 1, 2, 3, 4, 5, 9, 11}

Ents == [t : Types, g : {<<a, b>> : a, b \in 1..MaxTag}, n : {<<1, 2>>}]
Files == UNION {[1..n -> Ents] : n \in 0..MaxLen}

VARIABLE orig
all == <<vars, orig>>

Init == Idle /\ orig = <<>>
New == loads = 0 /\ file = <<>> /\ \E f \in Files : Given(f) /\ orig' = f
Reload == file # <<>> /\ loads < MaxLoads /\ Load /\ UNCHANGED orig
Next == New \/ Reload
Spec == Init /\ [][Next]_all

(* Nothing that belongs to the mesh or its boundary is lost or reordered.     *)
Kept == loads > 0 =>
  LET sel == SelectSeq(orig, LAMBDA e : DimOf(e.t) \in {Dim(orig), Dim(orig) - 1}) IN
  /\ Len(file) = Len(sel)
  /\ \A k \in DOMAIN sel : file[k].t = sel[k].t /\ file[k].n = sel[k].n /\ file[k].g[2] = sel[k].g[2]
SameDim == loads > 0 /\ orig # <<>> => Dim(file) = Dim(orig)
=============================================================================
