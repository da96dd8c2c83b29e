------------------------------ MODULE Partition ------------------------------
(* Splitting a mesh over ranks when some faces must not be cut.               *)
(*                                                                            *)
(* A first distribution is given.  The groups of elements connected through   *)
(* uncuttable faces are then placed one after another, each as a whole, on    *)
(* some rank; everything else stays where it is.                              *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES ranks, first, pairs, part, open, phase

vars == <<ranks, first, pairs, part, open, phase>>

Elements == DOMAIN first
Touched == UNION {{p[1], p[2]} : p \in pairs}

(* Elements reachable from e through uncuttable faces.                        *)
RECURSIVE Grow(_)
Grow(S) == LET T == S \cup UNION {{p[1], p[2]} : p \in {q \in pairs : q[1] \in S \/ q[2] \in S}}
           IN IF T = S THEN S ELSE Grow(T)
Groups == {Grow({e}) : e \in Touched}

Idle == ranks = 1 /\ first = <<>> /\ pairs = {} /\ part = <<>> /\ open = {} /\ phase = "idle"

Start(r, f, p) ==
  /\ phase \in {"idle", "done"}
  /\ ranks' = r /\ first' = f /\ pairs' = p /\ part' = f
  /\ open' = {} /\ phase' = "given"

Group == /\ phase = "given"
         /\ open' = Groups
         /\ phase' = "placing"
         /\ UNCHANGED <<ranks, first, pairs, part>>

Place(g, r) ==
  /\ phase = "placing" /\ g \in open
  /\ part' = [e \in Elements |-> IF e \in g THEN r ELSE part[e]]
  /\ open' = open \ {g}
  /\ UNCHANGED <<ranks, first, pairs, phase>>

Settle == /\ phase = "placing" /\ open = {}
          /\ phase' = "done"
          /\ UNCHANGED <<ranks, first, pairs, part, open>>

(* What any outcome has to satisfy; also what a recorded outcome is held to.  *)
Uncut(q) == \A p \in pairs : q[p[1]] = q[p[2]]
Kept(q) == \A e \in Elements : e \notin Touched => q[e] = first[e]
InRange(q) == DOMAIN q = Elements /\ \A e \in Elements : q[e] \in 0..ranks - 1
Outcome(q) == InRange(q) /\ Uncut(q) /\ Kept(q)

OutcomeOk == phase = "done" => Outcome(part)
GroupsDisjoint == \A g, h \in open : g = h \/ g \cap h = {}
=============================================================================
