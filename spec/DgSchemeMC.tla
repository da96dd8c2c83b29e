----------------------------- MODULE DgSchemeMC ------------------------------
(* The scheme on a row of cells carrying Ey and Hz, for every small state,    *)
(* wall, upwind parameter and material: its energy, symmetry and equilibria.  *)
EXTENDS DgScheme, TLC
CONSTANTS Cells, Order, Vals, Shift, Walls, Alphas, Materials, Sigmas
VARIABLE g
NN == Order + 1
Grids == [left : Walls, right : Walls, alpha2 : Alphas, eps : [1..Cells -> Materials], mu : [1..Cells -> Materials],
          sig : [1..Cells -> Sigmas]]
State(ey, hz) == <<0, ey, 0, 0, 0, hz>>
Build(s, e, h) ==
  [dim |-> 1, order |-> Order, alpha2 |-> s.alpha2, S |-> 64,
   len |-> [c \in 1..Cells |-> <<1>>],
   nb |-> [c \in 1..Cells |-> <<c - 1, IF c = Cells THEN 0 ELSE c + 1>>],
   wall |-> [c \in 1..Cells |-> <<IF c = 1 THEN s.left ELSE "", IF c = Cells THEN s.right ELSE "">>],
   eps |-> s.eps, mu |-> s.mu, sig |-> s.sig,
   x |-> [c \in 1..Cells |-> [n \in 1..NN |-> State(e[c][n], h[c][n])]]]
Quiet == [c \in 1..Cells |-> [n \in 1..NN |-> 0]]
Init == \E s \in Grids : g = Build(s, Quiet, Quiet)
Lines == [1..NN -> {v - Shift : v \in Vals}]
(* cells are filled from the first to the last *)
Fill == \E c \in 1..Cells :
         /\ \A b \in c..Cells : \A n \in 1..NN : g.x[b][n] = State(0, 0)
         /\ \E e \in Lines : \E h \in Lines : g' = [g EXCEPT !.x[c] = [n \in 1..NN |-> State(e[n], h[n])]]
Next == Fill
Spec == Init /\ [][Next]_g

Mass == IF Order = 1 THEN <<<<10, 5>>, <<5, 10>>>> ELSE <<<<4, 2, -1>>, <<2, 16, 2>>, <<-1, 2, 4>>>>   \* times 30
Work(c, k, m) == m * SumTo(NN, [i \in 1..NN |-> g.x[c][i][k] *
                       SumTo(NN, [j \in 1..NN |-> Mass[i][j] * BoxRate(g, c, j)[k]])])
Power2 == SumTo(Cells, [c \in 1..Cells |-> Work(c, 2, g.eps[c]) + Work(c, 6, g.mu[c])])
Lossless == \A c \in 1..Cells : g.sig[c] = 0
Closed == g.wall[1][1] # "SMA" /\ g.wall[Cells][2] # "SMA"
NeverGrows == Power2 <= 0
Conserves == g.alpha2 = 0 /\ Lossless /\ Closed => Power2 = 0
(* exchanging the roles of the fields, the materials and the two kinds of wall *)
Swap(w) == IF w = "PEC" THEN "PMC" ELSE IF w = "PMC" THEN "PEC" ELSE w
Dual == [g EXCEPT !.eps = g.mu, !.mu = g.eps, !.wall = [c \in 1..Cells |-> <<Swap(g.wall[c][1]), Swap(g.wall[c][2])>>],
                  !.x = [c \in 1..Cells |-> [n \in 1..NN |->
                     LET u == g.x[c][n] IN <<u[4], u[5], u[6], -u[1], -u[2], -u[3]>>]]]
Duality == Lossless => \A c \in 1..Cells : \A n \in 1..NN :
             LET r == BoxRate(g, c, n)
                 q == BoxRate(Dual, c, n)
             IN q = <<r[4], r[5], r[6], -r[1], -r[2], -r[3]>>
Uniform == \A c, b \in 1..Cells : \A n, m \in 1..NN : g.x[c][n] = g.x[b][m]
Stationary == Uniform /\ Cells = 3 /\ g.sig[2] = 0 => \A n \in 1..NN : BoxRate(g, 2, n) = <<0, 0, 0, 0, 0, 0>>
=============================================================================
