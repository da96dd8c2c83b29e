---------------------------- MODULE SourceShelf ------------------------------
(* Collections of sources and the operations that create, copy, move, extend  *)
(* and destroy them.  A collection is a sequence of kinds of sources; nothing *)
(* done to one collection shows in another.                                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Boxes, Kinds

VARIABLE box          \* per collection: gone, or what it holds

Gone == [live |-> FALSE]
Holding(s) == [live |-> TRUE, known |-> TRUE, has |-> s]
(* After its content was moved away a collection is usable but what it holds  *)
(* is not promised.                                                           *)
Loose == [live |-> TRUE, known |-> FALSE]

Idle == box = [b \in Boxes |-> Gone]

Make(b) == ~box[b].live /\ box' = [box EXCEPT ![b] = Holding(<<>>)]
Destroy(b) == box[b].live /\ box' = [box EXCEPT ![b] = Gone]
Add(b, k) == /\ box[b].live /\ box[b].known
             /\ box' = [box EXCEPT ![b] = Holding(Append(box[b].has, k))]
CopyNew(a, b) == box[a].live /\ box[a].known /\ ~box[b].live /\ box' = [box EXCEPT ![b] = box[a]]
Assign(a, b) == box[a].live /\ box[a].known /\ box[b].live /\ box' = [box EXCEPT ![b] = box[a]]
MoveNew(a, b) == /\ box[a].live /\ box[a].known /\ ~box[b].live
                 /\ box' = [box EXCEPT ![b] = box[a], ![a] = Loose]
MoveAssign(a, b) == /\ a # b /\ box[a].live /\ box[a].known /\ box[b].live
                    /\ box' = [box EXCEPT ![b] = box[a], ![a] = Loose]
(* Looking at a collection shows what it holds; of a loose one it settles it. *)
Look(b, s) == /\ box[b].live
              /\ \A i \in DOMAIN s : s[i] \in Kinds
              /\ IF box[b].known THEN s = box[b].has /\ UNCHANGED box
                 ELSE box' = [box EXCEPT ![b] = Holding(s)]

TypeOk == \A b \in Boxes : box[b].live /\ box[b].known => \A i \in DOMAIN box[b].has : box[b].has[i] \in Kinds

(* What an operation leaves alone: every collection but the ones it names.    *)
Untouched(bs) == \A b \in Boxes \ bs : box'[b] = box[b]
=============================================================================
