-------------------------------- MODULE Fit ---------------------------------
(* Fitting a surface impedance by sums of more and more poles.                *)
(*                                                                            *)
(* Each number of poles up to the limit gives one candidate, which is stable  *)
(* or not and has some error.  The search takes them in order, remembers the  *)
(* best stable one and stops at the first stable one below the tolerance.     *)
(* Errors only matter by how they compare.                                    *)
EXTENDS Integers, Sequences

VARIABLES limit, tol,
          cand,     \* the candidates so far: [stable, err]
          best,     \* number of poles of the best one so far, 0 if there is none
          done
vars == <<limit, tol, cand, best, done>>

Better(b, c) == IF b = 0 THEN TRUE ELSE c.err < cand[b].err

Try(c) == /\ ~done /\ Len(cand) < limit
          /\ cand' = Append(cand, c)
          /\ best' = IF c.stable /\ Better(best, c) THEN Len(cand') ELSE best
          /\ done' = (c.stable /\ c.err < tol)
          /\ UNCHANGED <<limit, tol>>
Exhaust == /\ ~done /\ Len(cand) = limit
           /\ done' = TRUE
           /\ UNCHANGED <<limit, tol, cand, best>>

(* What the whole list of candidates says about the outcome.                  *)
Usable(cs, m) == {k \in 1..m : cs[k].stable}
Good(cs, m, t) == {k \in Usable(cs, m) : cs[k].err < t}
Outcome(cs, m, t) ==
  IF Good(cs, m, t) # {} THEN CHOOSE k \in Good(cs, m, t) : \A j \in Good(cs, m, t) : k <= j
  ELSE IF Usable(cs, m) = {} THEN 0
  ELSE CHOOSE k \in Usable(cs, m) : \A j \in Usable(cs, m) : cs[k].err < cs[j].err \/ (cs[k].err = cs[j].err /\ k <= j)

Right == done => best = Outcome(cand, Len(cand), tol)
StableOnly == best > 0 => cand[best].stable
Stops == done => Len(cand) = limit \/ (best = Len(cand) /\ cand[best].err < tol)
=============================================================================
