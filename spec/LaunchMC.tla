------------------------------ MODULE LaunchMC -------------------------------
EXTENDS Launch
CONSTANTS Vocabulary, Longest, Times
VARIABLE count
Files == "a.json" :> "a" @@ "b.json" :> "b" @@ "post-a.json" :> "a" @@ "again-a.json" :> "a" @@ "post-b.json" :> "b"
Cases == {"a.json", "b.json"}
Init == /\ prog = "none" /\ words = <<>> /\ wants = "any" /\ file = Nothing /\ how = "reading"
        /\ done = {} /\ shown = <<>> /\ last = "refused" /\ count = 0
Say == \E w \in Vocabulary : Len(words) < Longest /\ Word(w) /\ UNCHANGED count
Next == \/ \E p \in {"solver", "post"} : count < Times /\ Start(p) /\ count' = count + 1
        \/ Say
        \/ Help /\ UNCHANGED count
        \/ Run /\ UNCHANGED count
        \/ Fail /\ UNCHANGED count
Spec == Init /\ [][Next]_<<vars, count>>
(* Nothing is ever forgotten, and only running adds.                          *)
Grows == [][done \subseteq done' /\ (done # done' => last' = "ran")]_<<vars, count>>
(* Only the post-processor replaces what it left.                             *)
ShownAnew == [][shown # shown' => prog = "post" /\ prog' = "none" /\ last' = "ran"]_<<vars, count>>
PostNeeds == [][prog = "post" /\ prog' = "none" => done' = done]_<<vars, count>>
=============================================================================
