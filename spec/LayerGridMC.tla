---------------------------- MODULE LayerGridMC ------------------------------
(* Grids of small stacks laid out cell by cell, and what they are for: a      *)
(* stack on a face must act as if its cells stood in the row themselves.      *)
EXTENDS LayerGrid
CONSTANTS MaxLayers, MaxCells, Lens, Seeds
VARIABLES stack, cells, pos
vars == <<stack, cells, pos>>

Mats == {<<1, 1, 0>>, <<2, 1, 1>>, <<4, 2, 0>>}
Layer == {[eps |-> m[1], mu |-> m[2], sig |-> m[3], width |-> w * c, cells |-> c, order |-> 1] : m \in Mats, w \in Lens, c \in 1..MaxCells}
Stacks == {[layers |-> ls, left |-> a, right |-> b] :
             ls \in UNION {[1..n -> Layer] : n \in 1..MaxLayers}, a \in {"", "PEC"}, b \in {"", "PMC"}}
PadCell == [eps |-> 1, mu |-> 1, sig |-> 0, len |-> 1, from |-> -1]
Init == stack \in Stacks /\ cells = <<>> /\ pos = 0
\* the next cell of the layer under way, or of the next one
Done == Len(cells) = StackCells(stack)
AddCell ==
  /\ ~Done
  /\ LET n == IF \E i \in DOMAIN stack.layers : CellsBefore(stack, i) = Len(cells)
              THEN CHOOSE i \in DOMAIN stack.layers : CellsBefore(stack, i) = Len(cells)
              ELSE cells[Len(cells)].of
         y == stack.layers[n]
     IN /\ cells' = Append(cells, [of |-> n, len |-> y.width \div y.cells, from |-> pos])
        /\ pos' = pos + y.width \div y.cells
  /\ UNCHANGED stack
Next == AddCell
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE WidthBefore(_)
WidthBefore(n) == IF n = 1 THEN 0 ELSE stack.layers[n - 1].width + WidthBefore(n - 1)
(* every cell lies in its layer, layers follow each other without gaps *)
InPlace == \A k \in DOMAIN cells : LET n == cells[k].of IN
             cells[k].from >= WidthBefore(n) /\ cells[k].from + cells[k].len <= WidthBefore(n) + stack.layers[n].width
SameLayers == \A k \in DOMAIN cells : LayerAt(stack, k) = stack.layers[cells[k].of]
Whole == Done => pos = WidthBefore(Len(stack.layers) + 1)
Finishes == <>Done

(* a row of two cells, the stack, two cells; as one row and as row and stack *)
Val(seed, c, nd, k) == ((seed * 7 + c * 5 + nd * 3 + k * k) % 7) - 3
State(seed, a, b) == [c \in 1..(b - a + 1) |-> [nd \in 1..2 |-> [k \in 1..6 |-> Val(seed, a + c - 1, nd, k)]]]
Rows == [order |-> 1, alpha2 |-> 2, len |-> <<1, 1, 2, 1>>, ends |-> "PEC"]
N == StackCells(stack)
One(seed) == LET g == StackGrid(stack, 2, 64, State(seed, 1, N + 4))
             IN [g EXCEPT !.len = [c \in DOMAIN g.len |-> IF c = N + 3 THEN <<2>> ELSE g.len[c]],
                          !.wall = [c \in DOMAIN g.wall |-> <<IF c = 1 THEN "PEC" ELSE g.wall[c][1], IF c = N + 4 THEN "PEC" ELSE g.wall[c][2]>>]]
\* the stack with its padding holding what is outside, whatever the padding's other cell holds
Fed(seed) == LET x == State(seed, 1, N + 4)
                 pad(c, nd) == IF c = 2 THEN x[2][2] ELSE IF c = N + 3 THEN x[N + 3][1] ELSE IF c \in {1, N + 4} THEN x[c][3 - nd] ELSE x[c][nd]
             IN StackGrid(stack, 2, 64, [c \in 1..(N + 4) |-> [nd \in 1..2 |-> pad(c, nd)]])
Row(seed) == LET x == State(seed, 1, N + 4)
             IN OuterGrid(Rows, stack, 2, 64, <<x[1], x[2], x[N + 3], x[N + 4]>>, [c \in 1..N |-> x[c + 2]])
AsIfInline ==
  Done => \A seed \in Seeds :
    /\ \A c \in 3..(N + 2), nd \in 1..2 : BoxRate(Fed(seed), c, nd) = BoxRate(One(seed), c, nd)
    /\ \A c \in 1..4, nd \in 1..2 : BoxRate(Row(seed), c, nd) = BoxRate(One(seed), IF c <= 2 THEN c ELSE N + c, nd)
=============================================================================
