------------------------------ MODULE DelayMC -------------------------------
(* Small surfaces: up to three faces with two or three corners, on two ranks. *)
EXTENDS Delay
CONSTANTS Far, Widths

Faces == {{a, b} : a, b \in -Far..Far}
Spread(fs, h) == [r \in 1..2 |-> {f \in fs : h[f] = r}]

Init == /\ kind \in {"planewave", "dipole"} /\ width \in Widths
        /\ \E fs \in {{f, g} : f, g \in Faces} : \E h \in [fs -> 1..2] :
              /\ faces = Spread(fs, h) /\ whole = UNION fs
        /\ kind = "dipole" => \A d \in whole : d > 0
        /\ seen = [r \in 1..2 |-> {}] /\ lead = {} /\ clock = 0 /\ passed = {}
Next == (\E r \in 1..2 : Look(r)) \/ Agree \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ReachesAll == <>(lead # {} /\ passed = whole)
=============================================================================
