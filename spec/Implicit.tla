------------------------------ MODULE Implicit -------------------------------
(* Implicit stage solves.  Asked for a step dt, a state x and a time t, the   *)
(* right-hand side returns the rate k with                                    *)
(*                                                                            *)
(*      k = rate(x + dt k, t)                                                 *)
(*                                                                            *)
(* whatever was asked before.  The work that depends only on dt may be kept   *)
(* between calls (kept: the step it was done for, or none).                   *)
EXTENDS DgScheme

(* one unknown, rate(x, t) = a x + s(t): the factor 1 - a dt *)
Factor(a, dt) == 1 - a * dt
Need(kept, a, dt) == IF kept.for = {dt} THEN kept.factor ELSE Factor(a, dt)
Solves(a, s, q, num, den) ==      \* k = num / den
  den # 0 /\ num = a * (q.x * den + q.dt * num) + s[q.t] * den

(* on boxes: g.x holds S times x + dt k in each node, k holds S times the rate *)
Stage(g, c, nd, k) == \A i \in 1..6 : Abs(k[c][nd][i] - BoxRate(g, c, nd)[i]) <= g.slack
StageRight(g, y, k) == LET h == [g EXCEPT !.x = y] IN
                       /\ Len(k) = Len(y)
                       /\ \A c \in DOMAIN y : \A nd \in Nodes(h) : Stage(h, c, nd, k)
=============================================================================
