----------------------------- MODULE ViewpointMC -----------------------------
(* An observer turns and mirrors a problem again and again.  The gradients of *)
(* the fields and the rates of change are seen from each viewpoint; the rates *)
(* seen are always those that Maxwell's equations give for the gradients seen.*)
EXTENDS Viewpoint
CONSTANTS Slopes, Depth
VARIABLES view,      \* how the problem is seen now
          ge, gh,    \* gradients of the electric and the magnetic field
          re, rh,    \* their rates of change
          pe, ph, pp,\* a plane wave: electric and magnetic field, propagation
          n
vars == <<view, ge, gh, re, rh, pe, ph, pp, n>>
One == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
TurnZ == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
TurnX == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
MirrorX == <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Times(a, b) == [i \in D3 |-> [j \in D3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
Transposed(a) == [i \in D3 |-> [j \in D3 |-> a[j][i]]]
\* gradient [i][j] of component i along j
Curl(g) == <<g[3][2] - g[2][3], g[1][3] - g[3][1], g[2][1] - g[1][2]>>
Minus(v) == [i \in D3 |-> -v[i]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Scaled(k, g) == [i \in D3 |-> [j \in D3 |-> k * g[i][j]]]
Seen(m, g) == Times(Times(m, g), Transposed(m))

Gradients == {[i \in D3 |-> [j \in D3 |-> IF <<i, j>> = p THEN a ELSE IF <<i, j>> = q THEN b ELSE 0]] :
                 p \in {<<1, 2>>, <<3, 1>>, <<2, 2>>}, q \in {<<2, 3>>, <<2, 1>>}, a \in Slopes, b \in Slopes}
Init == /\ view = One /\ n = 0
        /\ ge \in Gradients /\ gh \in Gradients
        /\ re = Curl(gh) /\ rh = Minus(Curl(ge))
        /\ pe = <<0, 1, 0>> /\ ph = <<0, 0, 1>> /\ pp = <<1, 0, 0>>
Move(m) == /\ n < Depth /\ n' = n + 1
           /\ view' = Times(m, view)
           /\ ge' = Seen(m, ge) /\ gh' = Scaled(Hand(m), Seen(m, gh))
           /\ re' = Electric(m, re) /\ rh' = Magnetic(m, rh)
           /\ pe' = Electric(m, pe) /\ ph' = Magnetic(m, ph) /\ pp' = Apply(m, pp)
Turn == \E m \in {TurnZ, TurnX} : Move(m)
Mirror == Move(MirrorX)
Next == Turn \/ Mirror
Spec == Init /\ [][Next]_vars

Lawful == re = Curl(gh) /\ rh = Minus(Curl(ge))
Wave == Cross(pe, ph) = pp
Rigid == Isometry(view, 1) /\ Det(view) \in {1, -1}
=============================================================================
