--------------------------- MODULE OperatorFileMC ----------------------------
(* Simulations export their operators number by number to the same file.      *)
EXTENDS OperatorFile
CONSTANTS N, Values, Times_
VARIABLES matrix, file, count, used
vars == <<matrix, file, count, used>>
Matrices == [1..N -> [1..N -> Values]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE NonZero(_, _)
NonZero(r, j) == IF j > N THEN <<>> ELSE (IF r[j] # 0 THEN <<j>> ELSE <<>>) \o NonZero(r, j + 1)
Starts(m) == [i \in 1..N + 1 |-> SumTo(LAMBDA k : Len(NonZero(m[k], 1)), 1, i - 1)]
Text(m) == <<N, N>> \o Starts(m)
           \o Flat([i \in 1..N |-> [k \in 1..Len(NonZero(m[i], 1)) |-> NonZero(m[i], 1)[k] - 1]])
           \o Flat([i \in 1..N |-> [k \in 1..Len(NonZero(m[i], 1)) |-> m[i][NonZero(m[i], 1)[k]]]])

Init == matrix \in Matrices /\ file = <<>> /\ count = 1 /\ used = FALSE
Put == ~used /\ Len(file) < Len(Text(matrix)) /\ file' = Append(file, Text(matrix)[Len(file) + 1]) /\ UNCHANGED <<matrix, count, used>>
Simulate == ~used /\ file = Text(matrix) /\ used' = TRUE /\ UNCHANGED <<matrix, file, count>>
Again == /\ used /\ count < Times_ /\ count' = count + 1 /\ used' = FALSE /\ file' = <<>> /\ matrix' \in Matrices
Next == Put \/ Simulate \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Put) /\ WF_vars(Simulate)

Applied(m, x, i) == SumTo(LAMBDA j : m[i][j] * x[j], 1, N)
(* A finished file is the operator; a cut one is recognised. *)
Faithful == used => /\ WellFormed(file)
                    /\ \A x \in [1..N -> {0, 1, -2}] : \A i \in 1..N : Times(file, x, i) = Applied(matrix, x, i)
CutSeen == Len(file) < Len(Text(matrix)) => ~WellFormed(file)
Exported == <>used
=============================================================================
