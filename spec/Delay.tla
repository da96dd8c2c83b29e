------------------------------- MODULE Delay --------------------------------
(* When no delay is declared, a total-field source is delayed by itself.      *)
(*                                                                            *)
(* Every rank looks at its own faces of the total-field surface, the ranks    *)
(* agree on the first point the pulse reaches, and the pulse is put so far    *)
(* back that it is quiet on the whole surface when the clock starts.  A       *)
(* plane wave passes a point when it has travelled the point's distance along *)
(* the direction of propagation (which may be negative); a dipole's pulse     *)
(* leaves the origin and passes a point after the point's distance from it.   *)
(* Lengths and times are integers in units in which light travels 1 per 1.    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind,    \* "planewave" or "dipole"
          width,   \* of the pulse
          faces,   \* by rank: the faces it still has to look at, sets of distances
          whole,   \* every distance on the surface
          seen,    \* by rank: the smallest distance so far, if any, as a set
          lead,    \* how far behind the origin the pulse starts, once chosen, as a set
          clock, passed
vars == <<kind, width, faces, whole, seen, lead, clock, passed>>

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(a, b) == IF a > b THEN a ELSE b

(* The pulse passes a point at distance d when the clock shows this.          *)
Arrival(d) == d + (CHOOSE x \in lead : TRUE)

(* Amplitudes fall off as exp(-x^2/2) in widths from the peak: below a        *)
(* millionth from 5.2 widths on.                                              *)
Quiet(time, w) == 10 * time >= 52 * w
Back(w) == 7 * w                  \* how far back a pulse is put
Soon(w) == 10 * w                 \* and how long one waits for it at most

Choose(k, w, low) == IF k = "planewave" THEN Back(w) - low ELSE Most(w, Back(w) - low)

Look(r) == /\ faces[r] # {}
           /\ \E f \in faces[r] :
                 /\ seen' = [seen EXCEPT ![r] = {Least(f \cup @)}]
                 /\ faces' = [faces EXCEPT ![r] = @ \ {f}]
           /\ UNCHANGED <<kind, width, whole, lead, clock, passed>>

Agree == /\ lead = {} /\ \A r \in DOMAIN faces : faces[r] = {}
         /\ lead' = {Choose(kind, width, Least(UNION {seen[r] : r \in DOMAIN seen}))}
         /\ UNCHANGED <<kind, width, faces, whole, seen, clock, passed>>

Advance == /\ lead # {} /\ passed # whole
           /\ clock' = clock + 1
           /\ passed' = {d \in whole : Arrival(d) <= clock'}
           /\ UNCHANGED <<kind, width, faces, whole, seen, lead>>

QuietStart == lead # {} => \A d \in whole : Quiet(Arrival(d), width)
InTime == lead # {} =>
            IF kind = "planewave" THEN Arrival(Least(whole)) <= Soon(width)
            ELSE \A d \in whole : Arrival(d) <= d + Soon(width)
Nobody == (lead = {} \/ clock = 0) => passed = {}
=============================================================================
