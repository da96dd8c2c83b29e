---------------------------- MODULE MeshRepairGen ----------------------------
(* Writes every sequence of element types up to a length, as files to repair. *)
EXTENDS MeshRepair, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen
Types == {15, 1, 2, 3, 4, 5, 8, 9, 11, 10}
Nodes(t) == CASE t = 15 -> 1 [] t = 1 -> 2 [] t = 8 -> 3 [] t = 2 -> 3 [] t = 9 -> 6 [] t = 3 -> 4 [] t = 10 -> 9 [] t = 4 -> 4 [] t = 11 -> 10 [] OTHER -> 8
Seqs == UNION {[1..n -> Types] : n \in 1..MaxLen}
Files == { [i \in DOMAIN s |-> [t |-> s[i], g |-> <<7 + i, i>>, n |-> [j \in 1..Nodes(s[i]) |-> ((i * 3 + j * (i + 1)) % 27) + 1]]] : s \in Seqs }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Files))
Spec == Idle /\ [][FALSE]_vars
=============================================================================
