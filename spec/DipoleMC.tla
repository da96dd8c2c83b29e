------------------------------ MODULE DipoleMC -------------------------------
(* Plane waves of any shape along the axes, added up, leave nothing over,     *)
(* however rough they are: both sides shift by the same lattice steps.        *)
(* Spoiling one component of such a sum leaves something over.                *)
EXTENDS Dipole
CONSTANTS Heights
VARIABLES shape, ways, sum, spoilt
vars == <<shape, ways, sum, spoilt>>

(* E along p, H along q, travelling along n (all with sign) *)
Ways == {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<-2, 1, 3>>, <<1, -2, -3>>, <<-3, 2, 1>>, <<2, -3, -1>>}
Sign(x) == IF x < 0 THEN -1 ELSE 1
Axis(x) == IF x < 0 THEN -x ELSE x
Steps == <<-2, -1, 1, 2>>
(* value of the shape at phase: lattice step along n minus time step *)
Phase(w, a, i) == IF a = 4 THEN -Steps[i] ELSE IF a = Axis(w[3]) THEN Sign(w[3]) * Steps[i] ELSE 0
Wave(w, f) == [a \in 1..4 |-> [i \in 1..4 |-> [k \in 1..6 |->
                IF k = Axis(w[1]) THEN Sign(w[1]) * f[Phase(w, a, i)]
                ELSE IF k = 3 + Axis(w[2]) THEN Sign(w[2]) * f[Phase(w, a, i)] ELSE 0]]]
Add(x, y) == [a \in 1..4 |-> [i \in 1..4 |-> [k \in 1..6 |-> x[a][i][k] + y[a][i][k]]]]

Init == /\ shape \in [-2..2 -> Heights] /\ ways = {} /\ spoilt = FALSE
        /\ sum = [a \in 1..4 |-> [i \in 1..4 |-> [k \in 1..6 |-> 0]]]
Join(w) == /\ ~spoilt /\ w \notin ways /\ ways' = ways \cup {w} /\ sum' = Add(sum, Wave(w, shape)) /\ UNCHANGED <<shape, spoilt>>
Spoil(a, i, k) == /\ ~spoilt /\ spoilt' = TRUE /\ sum' = [sum EXCEPT ![a][i][k] = @ + 1] /\ UNCHANGED <<shape, ways>>
Next == (\E w \in Ways : Join(w)) \/ \E a, i \in 1..4, k \in 1..6 : Spoil(a, i, k)
Spec == Init /\ [][Next]_vars
None == [i \in 1..8 |-> 0]
Satisfied == ~spoilt => Rest(sum) = None
Noticed == spoilt => Rest(sum) # None
=============================================================================
