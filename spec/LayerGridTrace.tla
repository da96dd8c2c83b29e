--------------------------- MODULE LayerGridTrace ----------------------------
(* Real thin layers: their rates of change, the fields they are fed, and the  *)
(* rates of the cells next to them.                                           *)
EXTENDS LayerGrid, TraceBase
VARIABLE case
TraceInit == l = 1 /\ case = <<>>
Begin == Consume("begin") /\ case' = Ev.p

St == case.stack
Np == StackOrder(St) + 1
Pads(x) == (Len(x) - StackCells(St)) \div 2
\* cells of the padding may have any length, so only the proportions are known
Signs(a, b) == (a > 0 /\ b > 0) \/ (a < 0 /\ b < 0)
Proportional(e, r) ==
  LET i0 == CHOOSE q \in (1..Np) \X (1..6) : \A p \in (1..Np) \X (1..6) : Abs(e[p[1]][p[2]]) <= Abs(e[q[1]][q[2]])
      ee == e[i0[1]][i0[2]]
      rr == r[i0[1]][i0[2]]
  IN /\ ee # 0 => Signs(ee, rr)
     /\ \A nd \in 1..Np, k \in 1..6 : Abs(e[nd][k] * rr - r[nd][k] * ee) <= Abs(e[nd][k]) + Abs(ee)
Slab ==
  /\ Consume("slab") /\ UNCHANGED case
  /\ LET p == Pads(Ev.x)
         g == StackGrid(St, p, 2048, Ev.x)
         g1 == StackGrid(St, p, 16, Ev.x)
     IN /\ p >= 1 /\ Len(Ev.x) = 2 * p + StackCells(St)
        /\ \A c \in (p + 1)..(p + StackCells(St)) : \A nd \in 1..Np : Ev.r[c][nd] = BoxRate(g, c, nd)
        /\ \A c \in (2..p) \cup ((p + StackCells(St) + 1)..(Len(Ev.x) - 1)) :
             Proportional([nd \in 1..Np |-> BoxRate(g1, c, nd)], Ev.p[c])
\* in units of 1/16
Feed ==
  /\ Consume("feed") /\ UNCHANGED case
  /\ Len(Ev.fed) = 1
  /\ \A k \in 1..6 : /\ Ev.fed[1][k] = 16 * Ev.x[case.at][case.row.order + 1][k]
                     /\ Ev.fed[1][6 + k] = 16 * Ev.x[case.at + 1][1][k]
See ==
  /\ Consume("see") /\ UNCHANGED case
  /\ LET p == Pads(Ev.slab)
         u == [c \in 1..StackCells(St) |-> Ev.slab[p + c]]
         g == OuterGrid(case.row, St, case.at, 2048, Ev.x, u)
     IN \A c \in DOMAIN Ev.x : \A nd \in DOMAIN Ev.x[c] : Ev.r[c][nd] = BoxRate(g, c, nd)
TraceNext == Begin \/ Slab \/ Feed \/ See
TraceSpec == TraceInit /\ [][TraceNext]_<<case, l>>
=============================================================================
