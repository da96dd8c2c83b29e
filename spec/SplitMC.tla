------------------------------- MODULE SplitMC -------------------------------
(* Cells of a row spread over ranks in any way.  In each round a rank sends   *)
(* the values of its cells that have a neighbour elsewhere, waits for those   *)
(* it needs, and moves its cells on.  Ranks run at their own pace; messages   *)
(* between two ranks keep their order.                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cells, Ranks, Rounds, Values
ASSUME Cells \in Nat /\ Ranks \in Nat
C == 1..Cells
R == 1..Ranks
VARIABLES owner, start, own, ghost, phase, round, mail
vars == <<owner, start, own, ghost, phase, round, mail>>

Nbrs(c) == {c - 1, c + 1} \cap C
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumOver(S \ {c}, f)
(* walls at the ends hold half of what is there back *)
Move(v, c) == (2 * v[c] + SumOver(Nbrs(c), v) - Cardinality(Nbrs(c)) * v[c]) % 97
RECURSIVE Alone(_)
Alone(n) == IF n = 0 THEN start ELSE LET v == Alone(n - 1) IN [c \in C |-> Move(v, c)]

Mine(r) == {c \in C : owner[c] = r}
Wanted(r, q) == {c \in Mine(q) : \E d \in Nbrs(c) : owner[d] = r}      \* cells of q that r needs
Partners(r) == {q \in R \ {r} : Wanted(r, q) # {}}

Init == /\ owner \in [C -> R]
        /\ start \in [C -> Values]
        /\ own = start
        /\ ghost = [r \in R |-> [c \in C |-> -1]]
        /\ phase = [r \in R |-> "send"]
        /\ round = [r \in R |-> 0]
        /\ mail = [p \in R \X R |-> <<>>]
Send(r) == /\ phase[r] = "send" /\ round[r] < Rounds
           /\ mail' = [p \in R \X R |-> IF p[1] = r /\ p[2] \in Partners(r)
                                        THEN Append(mail[p], [c \in Wanted(p[2], r) |-> own[c]]) ELSE mail[p]]
           /\ phase' = [phase EXCEPT ![r] = "wait"]
           /\ UNCHANGED <<owner, start, own, ghost, round>>
Receive(r) == /\ phase[r] = "wait"
              /\ \A q \in Partners(r) : mail[<<q, r>>] # <<>>
              /\ ghost' = [ghost EXCEPT ![r] = [c \in C |-> IF \E q \in Partners(r) : c \in DOMAIN Head(mail[<<q, r>>])
                                                            THEN Head(mail[<<owner[c], r>>])[c] ELSE -1]]
              /\ mail' = [p \in R \X R |-> IF p[2] = r /\ p[1] \in Partners(r) THEN Tail(mail[p]) ELSE mail[p]]
              /\ phase' = [phase EXCEPT ![r] = "move"]
              /\ UNCHANGED <<owner, start, own, round>>
Advance(r) == /\ phase[r] = "move"
              /\ LET see == [c \in C |-> IF owner[c] = r THEN own[c] ELSE ghost[r][c]] IN
                 own' = [c \in C |-> IF owner[c] = r THEN Move(see, c) ELSE own[c]]
              /\ round' = [round EXCEPT ![r] = @ + 1]
              /\ phase' = [phase EXCEPT ![r] = "send"]
              /\ UNCHANGED <<owner, start, ghost, mail>>
Next == \E r \in R : Send(r) \/ Receive(r) \/ Advance(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsAlone == \A c \in C : own[c] = Alone(round[owner[c]])[c]
InStep == \A r \in R : \A q \in Partners(r) : round[r] - round[q] \in {-1, 0, 1}
Finishes == <>(\A r \in R : round[r] = Rounds)
=============================================================================
