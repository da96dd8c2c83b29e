---------------------------- MODULE LayerStates ----------------------------
(* Thin layers carry a state of their own.  While a step of the whole problem *)
(* is being tried out its rates are asked for at several times and with       *)
(* several trial fields; every such question is answered with the layers      *)
(* advanced from their stored states, and the stored states stay as they are. *)
(* Only an accepted step replaces them, each by the state advanced once, by   *)
(* the step.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

\* A stored state is the sequence of advances that led to it.
Rest == <<>>
Advanced(state, how, amount) == Append(state, [how |-> how, by |-> amount])

\* what a question about the rates is answered with
Answer(stored, ahead, fields) == IF ahead = 0 THEN stored ELSE Advanced(stored, <<"tried", fields>>, ahead)
\* what an accepted step leaves
Accept(stored, dt, fields) == Advanced(stored, <<"accepted", fields>>, dt)

RECURSIVE Clock(_)
Clock(state) == IF state = <<>> THEN 0 ELSE state[Len(state)].by + Clock(SubSeq(state, 1, Len(state) - 1))

Close(a, b) == LET d == IF a > b THEN a - b ELSE b - a
                   m == IF a > 0 THEN a ELSE 0 - a
               IN d <= 2 + m \div 1000000
=============================================================================
