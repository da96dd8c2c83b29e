---------------------------- MODULE OperatorFile -----------------------------
(* The operator of a simulation as a file of numbers, one after the other:    *)
(* rows, columns, where each row starts (and where the last one ends), the    *)
(* column of each entry, the entries.  Counting starts at zero.               *)
EXTENDS Integers, Sequences

Rows(f) == f[1]
Columns(f) == f[2]
Start(f, i) == f[2 + i]                        \* i = 1 .. rows + 1
Entries(f) == Start(f, Rows(f) + 1)
Column(f, k) == f[3 + Rows(f) + k] + 1         \* k = 1 .. entries
Value(f, k) == f[3 + Rows(f) + Entries(f) + k]
(* exactly the numbers announced, in order *)
WellFormed(f) == /\ Len(f) >= 3 /\ Rows(f) >= 0 /\ Len(f) >= 3 + Rows(f)
                 /\ Start(f, 1) = 0 /\ \A i \in 1..Rows(f) : Start(f, i) <= Start(f, i + 1)
                 /\ Len(f) = 3 + Rows(f) + 2 * Entries(f)
                 /\ \A k \in 1..Entries(f) : Column(f, k) \in 1..Columns(f)

RECURSIVE SumTo(_, _, _)
SumTo(term(_), a, b) ==         \* by halves, so that long rows need no deep recursion
  IF a > b THEN 0 ELSE IF a = b THEN term(a)
  ELSE LET m == (a + b) \div 2 IN SumTo(term, a, m) + SumTo(term, m + 1, b)
(* entry i of the product with x *)
Times(f, x, i) == SumTo(LAMBDA k : Value(f, k) * x[Column(f, k)], Start(f, i) + 1, Start(f, i + 1))
=============================================================================
