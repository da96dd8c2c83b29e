--------------------------- MODULE LayerThreadsMC ---------------------------
(* Threads share out the layers.  A thread takes the next layer nobody has    *)
(* taken, copies its state to a work area, advances it in a number of small   *)
(* steps and copies it back.  There is a work area per thread and kind of     *)
(* layer.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Layers, Subs
VARIABLES state, next, pc, mine, area, left

vars == <<state, next, pc, mine, area, left>>
Kind(l) == l % 2
Start(l) == <<l, 0>>
\* a small step depends on what is in the work area and on the fields next to the layer itself
Step(x, l) == <<x[1] * 3 + l, x[2] + 1>>
RECURSIVE Result(_, _, _)
Result(x, l, n) == IF n = 0 THEN x ELSE Result(Step(x, l), l, n - 1)

Init == /\ state = [l \in Layers |-> Start(l)] /\ next = 1
        /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> 0]
        /\ area = [t \in Threads |-> [k \in {0, 1} |-> <<0, 0>>]] /\ left = [t \in Threads |-> 0]
Take(t) == /\ pc[t] = "idle" /\ next \in Layers
           /\ mine' = [mine EXCEPT ![t] = next] /\ next' = next + 1 /\ pc' = [pc EXCEPT ![t] = "load"]
           /\ UNCHANGED <<state, area, left>>
Load(t) == /\ pc[t] = "load"
           /\ area' = [area EXCEPT ![t][Kind(mine[t])] = state[mine[t]]]
           /\ left' = [left EXCEPT ![t] = Subs] /\ pc' = [pc EXCEPT ![t] = "go"] /\ UNCHANGED <<state, next, mine>>
Go(t) == /\ pc[t] = "go" /\ left[t] > 0
         /\ area' = [area EXCEPT ![t][Kind(mine[t])] = Step(@, mine[t])]
         /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<state, next, pc, mine>>
Save(t) == /\ pc[t] = "go" /\ left[t] = 0
           /\ state' = [state EXCEPT ![mine[t]] = area[t][Kind(mine[t])]]
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<next, mine, area, left>>
Next == \E t \in Threads : Take(t) \/ Load(t) \/ Go(t) \/ Save(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == next \notin Layers /\ \A t \in Threads : pc[t] = "idle"
SameAsAlone == Done => \A l \in Layers : state[l] = Result(Start(l), l, Subs)
Untouched == \A l \in Layers : state[l] \in {Start(l), Result(Start(l), l, Subs)}
AllDone == <>Done
=============================================================================
