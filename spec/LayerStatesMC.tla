--------------------------- MODULE LayerStatesMC ---------------------------
(* Questions in any number and order between and during steps of any size.   *)
EXTENDS LayerStates
CONSTANTS Layers, Dts, Aheads, Trials, MaxSteps, MaxAsked
VARIABLES stored, work, busy, time, dt, steps, asked, answers

vars == <<stored, work, busy, time, dt, steps, asked, answers>>
Init == /\ stored = [l \in Layers |-> Rest] /\ work = [l \in Layers |-> Rest]
        /\ busy = FALSE /\ time = 0 /\ dt = 0 /\ steps = <<>> /\ asked = 0 /\ answers = {}

\* `work` is scratch; it is filled from the stored states before it is advanced
Ask(ahead, fields) ==
  /\ asked < MaxAsked
  /\ work' = [l \in Layers |-> Answer(stored[l], ahead, fields)]
  /\ answers' = answers \cup {[n |-> Len(steps), ahead |-> ahead, fields |-> fields, got |-> work']}
  /\ asked' = asked + 1 /\ UNCHANGED <<stored, busy, time, dt, steps>>
Start(d) == ~busy /\ Len(steps) < MaxSteps /\ busy' = TRUE /\ dt' = d /\ UNCHANGED <<stored, work, time, steps, asked, answers>>
Finish(fields) ==
  /\ busy /\ busy' = FALSE
  /\ work' = [l \in Layers |-> Accept(stored[l], dt, fields)]
  /\ stored' = work' /\ time' = time + dt /\ steps' = Append(steps, dt) /\ dt' = 0
  /\ UNCHANGED <<asked, answers>>
Asking == \E a \in Aheads, f \in Trials : Ask(a, f)
Starting == \E d \in Dts : Start(d)
Finishing == \E f \in Trials : Finish(f)
Next == Asking \/ Starting \/ Finishing
Spec == Init /\ [][Next]_vars

OnlyAccepted == \A l \in Layers : \A i \in DOMAIN stored[l] : stored[l][i].how[1] = "accepted"
OncePerStep == \A l \in Layers : Len(stored[l]) = Len(steps) /\ \A i \in DOMAIN steps : stored[l][i].by = steps[i]
InTime == \A l \in Layers : Clock(stored[l]) = time
SameAnswers == \A a, b \in answers : (a.n = b.n /\ a.ahead = b.ahead /\ a.fields = b.fields) => a.got = b.got
AskingChangesNothing == [][asked' # asked => stored' = stored]_vars
=============================================================================
