-------------------------- MODULE SourceShelfTrace ---------------------------
(* Operations on real collections and what they were seen to hold.            *)
EXTENDS SourceShelf, TraceBase
TraceInit == Idle /\ l = 1
Begin == Consume("begin") /\ box' = [b \in Boxes |-> Gone]
Made == Consume("make") /\ Make(Ev.b)
Destroyed == Consume("destroy") /\ Destroy(Ev.b)
Added == Consume("add") /\ Add(Ev.b, Ev.k)
CopiedNew == Consume("copynew") /\ CopyNew(Ev.a, Ev.b)
Assigned == Consume("assign") /\ Assign(Ev.a, Ev.b)
MovedNew == Consume("movenew") /\ MoveNew(Ev.a, Ev.b)
MovedAssign == Consume("moveassign") /\ MoveAssign(Ev.a, Ev.b)
Looked == Consume("look") /\ Look(Ev.b, Ev.has)
TraceNext == Begin \/ Made \/ Destroyed \/ Added \/ CopiedNew \/ Assigned \/ MovedNew \/ MovedAssign \/ Looked
TraceSpec == TraceInit /\ [][TraceNext]_<<box, l>>
=============================================================================
