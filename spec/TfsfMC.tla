------------------------------- MODULE TfsfMC --------------------------------
(* Sorting the elements along a surface: its faces are taken up in any order, *)
(* and one of the two elements at a face is marked total, the other scattered.*)
(* Rule "numbering": the one numbered later is inside (two dimensions; the    *)
(* mesh numbers the elements outside first).  Rule "centre": the one on the   *)
(* same side of the face as the mean of the corners of the surface (three     *)
(* dimensions; convex surfaces, any numbering).                               *)
EXTENDS Tfsf, FiniteSets, TLC
CONSTANTS W, H, Rule, Convex
Cells == (0..(W - 1)) \X (0..(H - 1))
Id(c) == c[2] * W + c[1] + 1
Steps == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}
Go(c, d) == <<c[1] + d[1], c[2] + d[2]>>
Rects == {{c \in Cells : c[1] \in x..(x + a) /\ c[2] \in y..(y + b)} :
            x \in 0..(W - 1), y \in 0..(H - 1), a \in 0..(W - 1), b \in 0..(H - 1)}
Whole(R) == R # {} /\ R # Cells
Regions == IF Convex THEN {R \in Rects : Whole(R)} ELSE {R \in SUBSET Cells : Whole(R)}
(* a face between a cell and the one beyond it *)
Surface(R) == {<<c, d>> \in R \X Steps : Go(c, d) \in Cells \ R}
Corners(R) == UNION {LET c == f[1]
                         d == f[2]
                     IN IF d[1] # 0 THEN {<<c[1] + (d[1] + 1) \div 2, c[2]>>, <<c[1] + (d[1] + 1) \div 2, c[2] + 1>>}
                        ELSE {<<c[1], c[2] + (d[2] + 1) \div 2>>, <<c[1] + 1, c[2] + (d[2] + 1) \div 2>>} : f \in Surface(R)}
RECURSIVE SumOf(_, _)
SumOf(S, i) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN p[i] + SumOf(S \ {p}, i)
(* a plane has its corners' mean on itself: both sides are as good *)
Decidable(R) == \A i \in 1..2 : Cardinality({p[i] : p \in Corners(R)}) > 1

VARIABLES inside, number, left, tf, sf
vars == <<inside, number, left, tf, sf>>
(* outside first, otherwise any order; it is enough to know which of two is later *)
Numberings(R) == {[c \in Cells |-> IF c \in R THEN 100 + s * Id(c) ELSE s * Id(c)] : s \in {1, -1}}
AnyNumbering == {[c \in Cells |-> s * Id(c)] : s \in {1, -1}}
Init == /\ inside \in IF Rule = "centre" THEN {R \in Regions : Decidable(R)} ELSE Regions
        /\ number \in IF Rule = "centre" THEN AnyNumbering ELSE Numberings(inside)
        /\ left = Surface(inside)
        /\ tf = {}
        /\ sf = {}
(* twice the number of corners times the place of the centre / of a cell, along d, seen from the face *)
Along(p, d) == p[1] * d[1] + p[2] * d[2]
FaceAt(f) == 2 * Along(f[1], f[2]) + (IF f[2][1] + f[2][2] > 0 THEN 2 ELSE 0)    \* twice
CentreSide(f) == LET K == Corners(inside)
                 IN 2 * (SumOf(K, 1) * f[2][1] + SumOf(K, 2) * f[2][2]) - Cardinality(K) * FaceAt(f)
Later(f) == IF number[f[1]] > number[Go(f[1], f[2])] THEN f[1] ELSE Go(f[1], f[2])
Chosen(f) == IF Rule = "numbering" THEN Later(f)
             ELSE IF CentreSide(f) < 0 THEN f[1] ELSE Go(f[1], f[2])
Take(f) == /\ left' = left \ {f}
           /\ tf' = tf \cup {Chosen(f)}
           /\ sf' = sf \cup ({f[1], Go(f[1], f[2])} \ {Chosen(f)})
           /\ UNCHANGED <<inside, number>>
Next == \E f \in left : Take(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sided == tf \subseteq inside /\ sf \cap inside = {}
Done == left = {} => /\ tf = {f[1] : f \in Surface(inside)}
                     /\ sf = {Go(f[1], f[2]) : f \in Surface(inside)}
Finishes == <>(left = {})

(* the incident field inside, nothing outside: jumps and injection cancel *)
Field == <<1, -2, 3, 2, 0, -1>>
Cube == [n \in 1..(W * H) |-> CHOOSE c \in Cells : Id(c) = n]
Plate(d) == LET a == IF d[1] # 0 THEN 1 ELSE 2
            IN [N |-> [i \in 1..3 |-> IF i <= 2 THEN d[i] ELSE 0], P |-> Tangent(a)]
SidesOf(c, want(_)) ==
  LET S == {d \in Steps : want(Go(c, d))}
      nth(T) == CHOOSE d \in T : \A e \in T : d[1] + 2 * d[2] <= e[1] + 2 * e[2]
      F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE <<nth(T)>> \o F[T \ {nth(T)}]
  IN F[S]
Prob(R) == [n |-> W * H, S |-> 1, alpha2 |-> 1, slack |-> 0, inc |-> <<Field, Zero6>>,
            inside |-> SelectSeq([n \in 1..(W * H) |-> n], LAMBDA n : Cube[n] \in R),
            faces |-> [n \in 1..(W * H) |->
               LET ds == SidesOf(Cube[n], LAMBDA o : o \in Cells /\ ((o \in R) # (Cube[n] \in R)))
               IN [i \in DOMAIN ds |-> Plate(ds[i])]]]
State(R) == [n \in 1..(W * H) |-> IF Cube[n] \in R THEN Field ELSE Zero6]
Held(R) == [S |-> 1, alpha2 |-> 1, u |-> State(R), sig |-> [n \in 1..(W * H) |-> 0], vol |-> [n \in 1..(W * H) |-> 1], vden |-> 1,
            faces |-> [n \in 1..(W * H) |->
               LET ds == SidesOf(Cube[n], LAMBDA o : o \in Cells)
               IN [i \in DOMAIN ds |-> [wall |-> "", nb |-> Id(Go(Cube[n], ds[i]))] @@ Plate(ds[i])]]]
Still == left = Surface(inside) =>
           \A n \in 1..(W * H) : \A k \in 1..6 : 4 * Balance(Held(inside), n)[k] + Injected(Prob(inside), n, 0)[k] = 0
=============================================================================
