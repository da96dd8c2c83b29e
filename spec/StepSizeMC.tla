----------------------------- MODULE StepSizeMC ------------------------------
(* Ranks that hold some of the elements each, and tell each other what they   *)
(* found, in any order.                                                       *)
EXTENDS StepSize, TLC
CONSTANTS Ranks, Parts, Limits, Courants, None
VARIABLES limit, ask, holds, found, told, step
vars == <<limit, ask, holds, found, told, step>>

Init == /\ limit \in {f \in [Parts -> [1..2 -> Limits]] : Finer(f)}
        /\ ask \in [parts : SUBSET Parts \ {{}}, order : 1..2, scale : {<<1, 1>>, <<3, 2>>}, cfl : Courants, given : {0, 5}]
        /\ holds \in [Ranks -> SUBSET ask.parts] /\ UNION {holds[r] : r \in Ranks} = ask.parts
        /\ \A a, b \in Ranks : a # b => holds[a] \cap holds[b] = {}
        /\ found = [r \in Ranks |-> None] /\ told = [r \in Ranks |-> {}] /\ step = [r \in Ranks |-> None]
Look(r) == /\ found[r] = None
           /\ found' = [found EXCEPT ![r] = IF holds[r] = {} THEN 1000000 ELSE Num([ask EXCEPT !.parts = holds[r]], limit)]
           /\ UNCHANGED <<limit, ask, holds, told, step>>
Tell(a, b) == /\ found[a] # None /\ a \notin told[b] /\ told' = [told EXCEPT ![b] = @ \cup {a}]
              /\ UNCHANGED <<limit, ask, holds, found, step>>
Choose(r) == /\ told[r] = Ranks /\ step[r] = None
             /\ step' = [step EXCEPT ![r] = IF ask.given # 0 THEN ask.given * Den(ask) ELSE Least({found[q] : q \in Ranks})]
             /\ UNCHANGED <<limit, ask, holds, found, told>>
Next == \E r, q \in Ranks : Look(r) \/ Tell(q, r) \/ Choose(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == \A r \in Ranks : step[r] # None => step[r] = (IF ask.given # 0 THEN ask.given * Den(ask) ELSE Num(ask, limit))
OneStep == \A a, b \in Ranks : step[a] # None /\ step[b] # None => step[a] = step[b]
Alone == \A r \in Ranks : step[r] # None /\ ask.given = 0 =>
            \A q \in ask.parts : step[r] <= Num([ask EXCEPT !.parts = {q}], limit)
AllChoose == <>(\A r \in Ranks : step[r] # None)
=============================================================================
