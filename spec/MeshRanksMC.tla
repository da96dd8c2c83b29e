----------------------------- MODULE MeshRanksMC -----------------------------
(* Several ranks load the mesh file one or more times.  The first repairs it  *)
(* before every load, the others wait for that and then read; nobody waits    *)
(* for readers.  A file is read in two halves, through the file that had the  *)
(* name when it was opened.                                                   *)
EXTENDS Integers, FiniteSets

CONSTANTS Ranks, Loads,
          InPlace      \* repair by rewriting the file itself, not by replacing it
VARIABLES name,        \* the file that has the name
          disk,        \* contents of files: "given", "cut", "repaired"
          pc,          \* "repair", "writing", "wait", "first", "second", "done"
          load,        \* loads so far
          open,        \* the file a rank has open
          got          \* what it has read: the two halves of each load
vars == <<name, disk, pc, load, open, got>>

First == 0
New == Cardinality(DOMAIN disk)
Init == /\ name = 0 /\ disk = [i \in {0} |-> "given"] /\ load = [r \in Ranks |-> 0]
        /\ pc = [r \in Ranks |-> IF r = First THEN "repair" ELSE "wait"]
        /\ open = [r \in Ranks |-> 0] /\ got = [r \in Ranks |-> {}]

Go(r, to) == pc' = [pc EXCEPT ![r] = to]

Begin == /\ pc[First] = "repair" /\ Go(First, "writing")
         /\ disk' = IF InPlace THEN [disk EXCEPT ![name] = "cut"]
                    ELSE [i \in 0..New |-> IF i = New THEN "cut" ELSE disk[i]]
         /\ UNCHANGED <<name, load, open, got>>
Finish == /\ pc[First] = "writing" /\ Go(First, "wait")
          /\ IF InPlace THEN disk' = [disk EXCEPT ![name] = "repaired"] /\ UNCHANGED name
             ELSE disk' = [disk EXCEPT ![New - 1] = "repaired"] /\ name' = New - 1
          /\ UNCHANGED <<load, open, got>>
(* Everybody has come to the same load.                                       *)
Barrier == /\ \A r \in Ranks : pc[r] = "wait"
           /\ pc' = [r \in Ranks |-> "open"]
           /\ UNCHANGED <<name, disk, load, open, got>>
Open(r) == pc[r] = "open" /\ Go(r, "first") /\ open' = [open EXCEPT ![r] = name] /\ UNCHANGED <<name, disk, load, got>>
Read1(r) == /\ pc[r] = "first" /\ Go(r, "second") /\ got' = [got EXCEPT ![r] = @ \cup {disk[open[r]]}]
            /\ UNCHANGED <<name, disk, load, open>>
Read2(r) == /\ pc[r] = "second" /\ load' = [load EXCEPT ![r] = @ + 1]
            /\ got' = [got EXCEPT ![r] = @ \cup {disk[open[r]]}]
            /\ Go(r, IF load[r] + 1 = Loads THEN "done" ELSE IF r = First THEN "repair" ELSE "wait")
            /\ UNCHANGED <<name, disk, open>>
Next == Begin \/ Finish \/ Barrier \/ \E r \in Ranks : Open(r) \/ Read1(r) \/ Read2(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnlyRepaired == \A r \in Ranks : got[r] \subseteq {"repaired"}
(* Whenever everything stops, a complete file has the name.                   *)
Survives == disk[name] # "cut"
AllLoad == <>(\A r \in Ranks : load[r] = Loads)
=============================================================================
