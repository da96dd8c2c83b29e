----------------------------- MODULE PartitionMC -----------------------------
(* Every first distribution and every set of uncuttable faces of a small grid. *)
EXTENDS Partition
CONSTANTS W, H, MaxRanks

Cells == 1..W * H
Horizontal == {<<(j - 1) * W + i, (j - 1) * W + i + 1>> : i \in 1..W - 1, j \in 1..H}
Vertical == {<<(j - 1) * W + i, j * W + i>> : i \in 1..W, j \in 1..H - 1}

Init == Idle
Begin == phase = "idle" /\ \E r \in 1..MaxRanks : \E f \in [Cells -> 0..r - 1] :
           \E p \in SUBSET (Horizontal \cup Vertical) : Start(r, f, p)
PlaceOne == \E g \in open : \E r \in 0..ranks - 1 : Place(g, r)
Next == Begin \/ Group \/ PlaceOne \/ Settle
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == (phase = "given") ~> (phase = "done")
=============================================================================
