----------------------------- MODULE RegionsMC -------------------------------
(* Declaring one list after the other, in every order: no declaration changes *)
(* what another tag gets, and the order never matters.                        *)
EXTENDS Regions, FiniteSets
CONSTANTS CellTags, FaceTags, Types, Eps, MaxLists
VARIABLES mats, bds
vars == <<mats, bds>>
Lists(S) == {q \in UNION {[1..n -> S] : n \in 1..2} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Init == mats = <<>> /\ bds = <<>>
Range(q) == {q[i] : i \in DOMAIN q}
DeclareMaterial == /\ Len(mats) < MaxLists
                   /\ \E q \in Lists(CellTags), e \in Eps :
                        /\ Range(q) \cap Tags(mats) = {}
                        /\ mats' = Append(mats, [tags |-> q, eps |-> e, mu |-> 1, sig |-> 0])
                   /\ UNCHANGED bds
DeclareWall == /\ Len(bds) < MaxLists
               /\ \E q \in Lists(FaceTags), t \in Types :
                    /\ Range(q) \cap Tags(bds) = {}
                    /\ bds' = Append(bds, [tags |-> q, type |-> t])
               /\ UNCHANGED mats
Next == DeclareMaterial \/ DeclareWall
Spec == Init /\ [][Next]_vars

Untouched == [][/\ \A t \in CellTags : t \in Tags(mats) => MaterialOf(mats', t) = MaterialOf(mats, t)
                /\ \A t \in CellTags : t \notin Tags(mats') => MaterialOf(mats', t) = Vacuum
                /\ \A t \in FaceTags : t \in Tags(bds) => WallOf(bds', t, TRUE) = WallOf(bds, t, FALSE)
                /\ \A t \in FaceTags : t \notin Tags(bds') => WallOf(bds', t, TRUE) = "none" /\ WallOf(bds', t, FALSE) = ""]_vars
Reversed(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
ReversedTags(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.tags = Reversed(q[i].tags)]]
OrderFree == /\ \A t \in CellTags : MaterialOf(Reversed(ReversedTags(mats)), t) = MaterialOf(mats, t)
             /\ \A t \in FaceTags : WallOf(Reversed(ReversedTags(bds)), t, TRUE) = WallOf(bds, t, TRUE)
=============================================================================
