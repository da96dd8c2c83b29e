----------------------------- MODULE ImplicitMC ------------------------------
(* Every short history of stage solves, plain evaluations in between, with    *)
(* the factor of the last step kept.                                          *)
EXTENDS Implicit, FiniteSets
CONSTANTS Decays, Steps, States, Clock, Calls
VARIABLES a, kept, asked, num, den, n
vars == <<a, kept, asked, num, den, n>>
Pull == [t \in Clock |-> 2 * t - 1]
Qs == [dt : Steps, x : States, t : Clock]
Init == /\ a \in {-d : d \in Decays} \cup {0}
        /\ kept = [for |-> {}, factor |-> 0]
        /\ asked \in Qs
        /\ n = 0
        /\ num = 0 /\ den = 0
Solve(q) == /\ n < Calls
            /\ asked' = q
            /\ LET f == Need(kept, a, q.dt) IN
               /\ kept' = [for |-> {q.dt}, factor |-> f]
               /\ den' = f
               /\ num' = a * q.x + Pull[q.t]
            /\ n' = n + 1
            /\ UNCHANGED a
Evaluate == /\ n < Calls /\ n' = n + 1 /\ UNCHANGED <<a, kept, asked, num, den>>
Next == (\E q \in Qs : Solve(q)) \/ Evaluate
Spec == Init /\ [][Next]_vars
Right == den # 0 => Solves(a, Pull, asked, num, den)
(* equal questions, equal answers: the answer is a function of the question *)
Same == den # 0 => den = Factor(a, asked.dt) /\ num = a * asked.x + Pull[asked.t]
=============================================================================
