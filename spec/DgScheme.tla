------------------------------ MODULE DgScheme -------------------------------
(* The discontinuous Galerkin scheme for Maxwell's equations: what the rate   *)
(* of change of a state is.                                                   *)
(*                                                                            *)
(*   eps dE/dt =  curl H - sigma E + lift( n x (H* - H) + upwind part )       *)
(*    mu dH/dt = -curl E           + lift( (E* - E) x n + upwind part )       *)
(*                                                                            *)
(* with fluxes made of the jumps of E and H across a face.  On a wall the     *)
(* outer state is the mirror image (conducting, magnetic) or zero             *)
(* (absorbing, always with the full upwind part).                             *)
(*                                                                            *)
(* Vectors have three entries, states six (Ex Ey Ez Hx Hy Hz).                *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Apply(M, v) == [i \in 1..3 |-> M[i][1] * v[1] + M[i][2] * v[2] + M[i][3] * v[3]]
EPart(u) == <<u[1], u[2], u[3]>>
HPart(u) == <<u[4], u[5], u[6]>>
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Times(k, a) == [i \in DOMAIN a |-> k * a[i]]

(* -- faces --------------------------------------------------------------- *)
(* wall: "" for an ordinary face between two cells, "none" for a face at the  *)
(* border that no condition was declared for *)
JumpE(wall, mine, other) ==
  CASE wall = ""    -> Sub(EPart(mine), EPart(other))
    [] wall = "none" -> <<0, 0, 0>>
    [] wall = "PEC" -> Times(2, EPart(mine))
    [] wall = "PMC" -> <<0, 0, 0>>
    [] wall = "SMA" -> EPart(mine)
JumpH(wall, mine, other) ==
  CASE wall = ""    -> Sub(HPart(mine), HPart(other))
    [] wall = "none" -> <<0, 0, 0>>
    [] wall = "PEC" -> <<0, 0, 0>>
    [] wall = "PMC" -> Times(2, HPart(mine))
    [] wall = "SMA" -> HPart(mine)

(* Four times what a face adds, before lifting.  N is the outward area vector, *)
(* P the area times (n n' - 1), twoAlpha twice the upwind parameter.           *)
Upwind(wall, twoAlpha) == IF wall = "SMA" THEN 2 ELSE twoAlpha
FaceE(wall, N, P, twoAlpha, mine, other) ==
  LET c == Cross(N, JumpH(wall, mine, other))
      u == Apply(P, JumpE(wall, mine, other))
  IN [i \in 1..3 |-> -2 * c[i] + Upwind(wall, twoAlpha) * u[i]]
FaceH(wall, N, P, twoAlpha, mine, other) ==
  LET c == Cross(N, JumpE(wall, mine, other))
      u == Apply(P, JumpH(wall, mine, other))
  IN [i \in 1..3 |-> 2 * c[i] + Upwind(wall, twoAlpha) * u[i]]

(* -- rectangular cells, exact -------------------------------------------- *)
(* A problem g on a grid of boxes:                                            *)
(*   dim, order, alpha2 (twice the upwind parameter), S (unit of the rates),  *)
(*   len[c][d] edge lengths, nb[c][f] neighbour (0: none), wall[c][f],        *)
(*   eps[c], mu[c], sig[c], x[c][node] states.                                *)
(* Face f = 2d-1 is the lower one in direction d, f = 2d the upper one.       *)
Deriv(order) == IF order = 1 THEN <<<<-1, 1>>, <<-1, 1>>>>
                ELSE <<<<-3, 4, -1>>, <<-1, 0, 1>>, <<1, -4, 3>>>>
(* twice the response of node a of a line to a unit flux at its lower end *)
Lift2(order) == IF order = 1 THEN <<8, -4>> ELSE <<18, -3, 6>>

RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Nodes(g) == 1..Power(g.order + 1, g.dim)
(* position (from 0) of a node in direction d, and the node at position a of its line *)
Pos(g, nd, d) == ((nd - 1) \div Power(g.order + 1, d - 1)) % (g.order + 1)
OnLine(g, nd, d, a) == nd + (a - Pos(g, nd, d)) * Power(g.order + 1, d - 1)

RECURSIVE SumTo(_, _)
SumTo(n, f) == IF n = 0 THEN 0 ELSE f[n] + SumTo(n - 1, f)

(* len * derivative of component k in direction d *)
D(g, c, nd, d, k) ==
  LET row == Deriv(g.order)[Pos(g, nd, d) + 1]
  IN SumTo(g.order + 1, [b \in 1..(g.order + 1) |-> row[b] * g.x[c][OnLine(g, nd, d, b - 1)][k]])
(* S times the derivative; zero in the directions the mesh does not have *)
Dx(g, c, nd, d, k) == IF d > g.dim THEN 0 ELSE (g.S * D(g, c, nd, d, k)) \div g.len[c][d]
CurlOf(g, c, nd, o) == <<Dx(g, c, nd, 2, o + 3) - Dx(g, c, nd, 3, o + 2),
                         Dx(g, c, nd, 3, o + 1) - Dx(g, c, nd, 1, o + 3),
                         Dx(g, c, nd, 1, o + 2) - Dx(g, c, nd, 2, o + 1)>>

Axis(d, s) == [i \in 1..3 |-> IF i = d THEN s ELSE 0]
Tangent(d) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j /\ i # d THEN -1 ELSE 0]]

(* S times what face f adds at node nd *)
FromFace(g, c, nd, f, isE) ==
  LET d == (f + 1) \div 2
      up == f % 2 = 0
      end == IF up THEN g.order ELSE 0
      a == Pos(g, nd, d)
      lift == Lift2(g.order)[(IF up THEN g.order - a ELSE a) + 1]
      mine == g.x[c][OnLine(g, nd, d, end)]
      w == g.wall[c][f]
      other == IF w = "" THEN g.x[g.nb[c][f]][OnLine(g, nd, d, g.order - end)] ELSE mine
      N == Axis(d, IF up THEN 1 ELSE -1)
      v == IF isE THEN FaceE(w, N, Tangent(d), g.alpha2, mine, other)
                  ELSE FaceH(w, N, Tangent(d), g.alpha2, mine, other)
  IN [i \in 1..3 |-> (g.S * lift * v[i]) \div (8 * g.len[c][d])]

RECURSIVE AllFaces(_, _, _, _, _)
AllFaces(g, c, nd, f, isE) ==
  IF f = 0 THEN <<0, 0, 0>>
  ELSE LET a == FromFace(g, c, nd, f, isE)
           b == AllFaces(g, c, nd, f - 1, isE)
       IN <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>

(* S times the rate of the state at node nd of cell c *)
BoxRate(g, c, nd) ==
  LET ch == CurlOf(g, c, nd, 3)
      ce == CurlOf(g, c, nd, 0)
      fe == AllFaces(g, c, nd, 2 * g.dim, TRUE)
      fh == AllFaces(g, c, nd, 2 * g.dim, FALSE)
  IN [k \in 1..6 |-> IF k <= 3 THEN (ch[k] + fe[k] - g.S * g.sig[c] * g.x[c][nd][k]) \div g.eps[c]
                     ELSE (-ce[k - 3] + fh[k - 3]) \div g.mu[c]]

BoxesRight(g, r) == /\ Len(r) = Len(g.x)
                    /\ \A c \in DOMAIN g.x : \A nd \in Nodes(g) : r[c][nd] = BoxRate(g, c, nd)

(* -- any cells: balance over a cell -------------------------------------- *)
(* States u[c] constant on each cell; q.faces[c] lists the faces of a cell as *)
(* [N, P, wall, nb], N and P in units of 1/q.S, q.vol[c] times q.vden is the  *)
(* volume.  The mean rate over the cell times its volume is what its faces    *)
(* let in, minus the loss.                                                    *)
RECURSIVE Inflow(_, _, _, _)
Inflow(q, c, n, isE) ==
  IF n = 0 THEN <<0, 0, 0>>
  ELSE LET f == q.faces[c][n]
           o == IF f.wall = "" THEN q.u[f.nb] ELSE q.u[c]
           a == IF isE THEN FaceE(f.wall, f.N, f.P, q.alpha2, q.u[c], o)
                       ELSE FaceH(f.wall, f.N, f.P, q.alpha2, q.u[c], o)
           b == Inflow(q, c, n - 1, isE)
       IN <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
(* four times S times eps (mu) times volume times the mean rate *)
Balance(q, c) ==
  LET e == Inflow(q, c, Len(q.faces[c]), TRUE)
      h == Inflow(q, c, Len(q.faces[c]), FALSE)
  IN [k \in 1..6 |-> IF k <= 3 THEN e[k] - ((4 * q.S * q.sig[c] * q.u[c][k]) * q.vol[c]) \div q.vden ELSE h[k - 3]]
BalanceRight(q, m) ==      \* m[c]: eps (mu) times volume times mean rate, in 1/S
  \A c \in DOMAIN q.u : \A k \in 1..6 : Abs(4 * m[c][k] - Balance(q, c)[k]) <= q.slack

(* -- any cells: smooth fields -------------------------------------------- *)
(* A field whose components are affine, a[k] = <<a0, ax, ay, az>>, has no     *)
(* jumps; away from walls its rate is the constant curl.  A quadratic field   *)
(* has an affine curl.  b[k] lists the coefficients of xx xy xz yy yz zz.     *)
Grad(q, k, d, at) ==   \* derivative of component k in direction d at a point given in 1/S
  LET l == q.a[k][d + 1] * q.S
      b == q.b[k]
  IN CASE d = 1 -> l + 2 * b[1] * at[1] + b[2] * at[2] + b[3] * at[3]
       [] d = 2 -> l + b[2] * at[1] + 2 * b[4] * at[2] + b[5] * at[3]
       [] d = 3 -> l + b[3] * at[1] + b[5] * at[2] + 2 * b[6] * at[3]
SmoothCurl(q, o, at) == <<Grad(q, o + 3, 2, at) - Grad(q, o + 2, 3, at),
                          Grad(q, o + 1, 3, at) - Grad(q, o + 3, 1, at),
                          Grad(q, o + 2, 1, at) - Grad(q, o + 1, 2, at)>>
SmoothRight(q, at, r) ==   \* r: eps (mu) times the rate
  LET ch == SmoothCurl(q, 3, at)
      ce == SmoothCurl(q, 0, at)
  IN \A k \in 1..6 : Abs(r[k] - (IF k <= 3 THEN ch[k] ELSE -ce[k - 3])) <= q.slack
=============================================================================
