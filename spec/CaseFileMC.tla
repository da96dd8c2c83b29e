------------------------------ MODULE CaseFileMC ----------------------------
(* A complete file is edited entry by entry - left out, given another value, *)
(* another kind of value, or a value of no meaning - and then loaded section *)
(* by section, in any order.                                                 *)
EXTENDS CaseFile
CONSTANT MaxEdits
VARIABLES file, edits, todo, verdict
vars == <<file, edits, todo, verdict>>

S(x) == <<"s", x>>
N(x) == <<"n", x>>
I(x) == <<"i", x>>
A(x) == <<"a", x>>
O(x) == <<"o", x>>

World == [files |-> [folder |-> "a", json |-> "a", msh |-> "a.msh"], mesh |-> [vol |-> {1}, bdr |-> {1, 2}, cells |-> 4, split |-> 2]]

Whole ==
  O([solver_options |-> O([evolution_operator |-> S("maxwell"), upwind_alpha |-> N(500), final_time |-> N(1000), time_step |-> N(125),
                           order |-> I(1), ode_type |-> I(2)]),
     probes |-> O([exporter |-> O([steps |-> I(2)]), field |-> A(<<O([field_type |-> S("electric"), polarization |-> S("Z"),
                                                                   position |-> A(<<N(500)>>), saves |-> I(2)])>>)]),
     model |-> O([filename |-> S("a.msh"), materials |-> A(<<O([tags |-> A(<<I(1)>>), relative_permittivity |-> N(2000)])>>),
                  boundaries |-> A(<<O([tags |-> A(<<I(1)>>), type |-> S("PEC")])>>)]),
     sources |-> A(<<O([type |-> S("planewave"), tags |-> A(<<I(2)>>), polarization |-> A(<<I(0), I(1), I(0)>>),
                        propagation |-> A(<<I(1), I(0), I(0)>>), magnitude |-> O([spread |-> N(200)])])>>)])

(* A path is a sequence of keys and positions.                              *)
Paths == {<<"solver_options">>, <<"probes">>, <<"model">>, <<"sources">>} \cup
  {<<"solver_options", k>> : k \in {"evolution_operator", "upwind_alpha", "final_time", "time_step", "order", "ode_type"}} \cup
  {<<"probes", "exporter">>, <<"probes", "exporter", "steps">>} \cup
  {<<"probes", "field", "1", k>> : k \in {"field_type", "polarization", "position", "saves"}} \cup
  {<<"model", k>> : k \in {"filename", "materials", "boundaries"}} \cup
  {<<"model", "materials", "1", k>> : k \in {"tags", "relative_permittivity"}} \cup
  {<<"model", "boundaries", "1", k>> : k \in {"tags", "type"}} \cup
  {<<"sources", "1", k>> : k \in {"type", "tags", "polarization", "propagation", "magnitude"}} \cup
  {<<"sources", "1", "magnitude", "spread">>}
Optional == {<<"solver_options">>, <<"probes">>, <<"probes", "exporter">>, <<"probes", "exporter", "steps">>,
             <<"probes", "field", "1", "saves">>, <<"model", "materials", "1", "relative_permittivity">>} \cup
  {<<"solver_options", k>> : k \in {"evolution_operator", "upwind_alpha", "final_time", "time_step", "order", "ode_type"}}

RECURSIVE There(_, _), Without(_, _), With(_, _, _)
There(v, p) == IF p = <<>> THEN TRUE
               ELSE IF v[1] = "a" THEN Items(v) # <<>> /\ Head(p) = "1" /\ There(Items(v)[1], Tail(p))
               ELSE v[1] = "o" /\ Has(v, Head(p)) /\ There(At(v, Head(p)), Tail(p))
Without(v, p) == IF v[1] = "a" THEN A(<<Without(Items(v)[1], Tail(p))>>)
                 ELSE IF Len(p) = 1 THEN O([k \in DOMAIN v[2] \ {p[1]} |-> v[2][k]])
                 ELSE O([v[2] EXCEPT ![p[1]] = Without(@, Tail(p))])
With(v, p, x) == IF p = <<>> THEN x
                 ELSE IF v[1] = "a" THEN A(<<With(Items(v)[1], Tail(p), x)>>)
                 ELSE O([v[2] EXCEPT ![p[1]] = With(@, Tail(p), x)])

Odd == {S("nonsense"), N(-500), I(9), A(<<>>), A(<<I(1), I(0), I(0), I(0)>>), O([x \in {} |-> x])}

Init == file = Whole /\ edits = 0 /\ todo = DOMAIN Sections /\ verdict = "reading"
LeaveOut == /\ edits < MaxEdits /\ todo = DOMAIN Sections
            /\ \E p \in Paths : There(file, p) /\ file' = Without(file, p)
            /\ edits' = edits + 1 /\ UNCHANGED <<todo, verdict>>
Replace == /\ edits < MaxEdits /\ todo = DOMAIN Sections
           /\ \E p \in Paths : \E x \in Odd : There(file, p) /\ file' = With(file, p, x)
           /\ edits' = edits + 1 /\ UNCHANGED <<todo, verdict>>
Read == /\ verdict = "reading"
        /\ \E i \in todo : /\ todo' = todo \ {i}
                           /\ verdict' = IF ~SectionOk(Sections[i], file, World) THEN "refused"
                                         ELSE IF todo = {i} THEN "understood" ELSE "reading"
        /\ UNCHANGED <<file, edits>>
Next == LeaveOut \/ Replace \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

(* Whatever the order of reading, the verdict is the same.                  *)
OrderFree == /\ verdict = "understood" => Understood(file, World)
             /\ verdict = "refused" => ~Understood(file, World)
Ends == <>(verdict \in {"understood", "refused"})
(* Leaving out an optional entry of an understood file keeps it understood,  *)
(* and leaving out any other entry makes it a refused one.                   *)
Defaults == Understood(file, World) => \A p \in Paths : There(file, p) => (Understood(Without(file, p), World) <=> p \in Optional)
(* What one entry means does not depend on the others.                       *)
Opt(f) == Options(Sub(f, "solver_options"))
Key == [op |-> "evolution_operator", alpha |-> "upwind_alpha", final |-> "final_time", dt |-> "time_step", order |-> "order",
        ode |-> "ode_type"]
Separate == Understood(file, World) => \A k \in DOMAIN Key : There(file, <<"solver_options", Key[k]>>) =>
              LET o == Opt(file) q == Opt(Without(file, <<"solver_options", Key[k]>>))
              IN \A j \in DOMAIN o : j # k => o[j] = q[j]
=============================================================================
