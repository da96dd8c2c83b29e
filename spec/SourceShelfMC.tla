--------------------------- MODULE SourceShelfMC -----------------------------
EXTENDS SourceShelf
CONSTANT MaxLen
Init == Idle
AddOne == \E b \in Boxes, k \in Kinds : box[b].live /\ box[b].known /\ Len(box[b].has) < MaxLen /\ Add(b, k)
Makes == \E b \in Boxes : Make(b)
Ends == \E b \in Boxes : Destroy(b)
Copies == \E a, b \in Boxes : CopyNew(a, b) \/ Assign(a, b)
Moves == \E a, b \in Boxes : MoveNew(a, b) \/ MoveAssign(a, b)
Looks == \E b \in Boxes : \/ box[b].live /\ box[b].known /\ Look(b, box[b].has)
                          \/ box[b].live /\ ~box[b].known /\ Look(b, <<>>)
Next == AddOne \/ Makes \/ Ends \/ Copies \/ Moves \/ Looks
Spec == Init /\ [][Next]_box
(* A copy equals its original and at most two collections change at once.     *)
Independent == [][Cardinality({b \in Boxes : box'[b] # box[b]}) <= 2]_box
NothingLost == [][\A b \in Boxes : (box[b].live /\ box[b].known /\ Len(box[b].has) > 0 /\ box'[b].live /\ box'[b].known)
                    => (Len(box'[b].has) >= Len(box[b].has) \/ \E a \in Boxes \ {b} : box[a].live /\ box[a].known /\ box[a].has = box'[b].has)]_box
=============================================================================
