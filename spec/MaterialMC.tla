----------------------------- MODULE MaterialMC ------------------------------
EXTENDS Material
CONSTANT Nums, Dens

Num == [n : Nums, d : Dens, p : {0}, ulp : {-1, 0}]
Cond == [s : {-1, 0, 1}]

Init == Idle
MakeOne == \E k \in Slots, e \in Num, m \in Num, g \in Cond : Make(k, e, m, g)
RefuseOne == \E k \in Slots, e \in Num, m \in Num, g \in Cond : Refuse(k, e, m, g)
CopyOne == \E a, b \in Slots : Copy(a, b)
Next == MakeOne \/ RefuseOne \/ CopyOne
Spec == Init /\ [][Next]_shelf
=============================================================================
