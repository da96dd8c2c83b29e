----------------------------- MODULE LayerGrid -------------------------------
(* The grid behind a layered face.                                            *)
(*                                                                            *)
(* A stack declares layers [eps, mu, sig, width, cells, order] from left to   *)
(* right and may declare a wall on its left or right surface ("" for none).   *)
(* Its grid has one dimension: vacuum padding, the cells of every layer in    *)
(* the declared order, vacuum padding.  The padding next to a surface holds   *)
(* the field outside of it; the cell outside sees the surface, or the wall.   *)
EXTENDS DgScheme

RECURSIVE CellsBefore(_, _)
CellsBefore(s, n) == IF n = 1 THEN 0 ELSE s.layers[n - 1].cells + CellsBefore(s, n - 1)
StackCells(s) == CellsBefore(s, Len(s.layers) + 1)
StackOrder(s) == LET os == {s.layers[i].order : i \in DOMAIN s.layers} IN CHOOSE o \in os : \A q \in os : q <= o
\* the layer of the k-th cell of the stack
LayerAt(s, k) == s.layers[CHOOSE n \in DOMAIN s.layers : CellsBefore(s, n) < k /\ k <= CellsBefore(s, n) + s.layers[n].cells]

(* The problem on the grid with pads cells of length one on each side. *)
StackGrid(s, pads, S, x) ==
  LET n == StackCells(s)
      all == 2 * pads + n
      in(c) == c > pads /\ c <= pads + n
      lay(c) == LayerAt(s, c - pads)
  IN [dim |-> 1, order |-> StackOrder(s), alpha2 |-> 2, S |-> S, x |-> x,
      len |-> [c \in 1..all |-> IF in(c) THEN <<lay(c).width \div lay(c).cells>> ELSE <<1>>],
      eps |-> [c \in 1..all |-> IF in(c) THEN lay(c).eps ELSE 1],
      mu  |-> [c \in 1..all |-> IF in(c) THEN lay(c).mu ELSE 1],
      sig |-> [c \in 1..all |-> IF in(c) THEN lay(c).sig ELSE 0],
      nb  |-> [c \in 1..all |-> <<c - 1, IF c = all THEN 0 ELSE c + 1>>],
      wall |-> [c \in 1..all |-> <<IF c = 1 THEN "SMA" ELSE IF c = pads + 1 THEN s.left ELSE IF c = pads + n + 1 THEN s.right ELSE "",
                                   IF c = all THEN "SMA" ELSE IF c = pads THEN s.left ELSE IF c = pads + n THEN s.right ELSE "">>]]

(* A row of outer cells with the stack on the face between cell at and the     *)
(* next one: what these cells see of a stack whose cells are in state u.       *)
OuterGrid(o, s, at, S, x, u) ==
  LET n == Len(o.len)
      np == o.order + 1
      flat(v) == [k \in 1..np |-> v]
  IN [dim |-> 1, order |-> o.order, alpha2 |-> o.alpha2, S |-> S,
      x |-> x \o <<flat(u[1][1]), flat(u[Len(u)][StackOrder(s) + 1])>>,
      len |-> [c \in 1..n |-> <<o.len[c]>>],
      eps |-> [c \in 1..n |-> 1], mu |-> [c \in 1..n |-> 1], sig |-> [c \in 1..n |-> 0],
      nb |-> [c \in 1..n |-> <<IF c = at + 1 THEN n + 2 ELSE c - 1, IF c = at THEN n + 1 ELSE IF c = n THEN 0 ELSE c + 1>>],
      wall |-> [c \in 1..n |-> <<IF c = 1 THEN o.ends ELSE IF c = at + 1 THEN s.right ELSE "",
                                 IF c = n THEN o.ends ELSE IF c = at THEN s.left ELSE "">>]]
=============================================================================
