------------------------------- MODULE FitMC --------------------------------
EXTENDS Fit
CONSTANTS Limits, Errors
Init == limit \in Limits /\ tol \in Errors /\ cand = <<>> /\ best = 0 /\ done = FALSE
Next == (\E s \in BOOLEAN, e \in Errors : Try([stable |-> s, err |-> e])) \/ Exhaust
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>done
=============================================================================
