-------------------------------- MODULE Tfsf ---------------------------------
(* The two sides of a total-field surface.  Elements inside the surface hold  *)
(* the total field, elements outside the scattered field, so at each face of  *)
(* the surface an inside element sees the incident field added to what is     *)
(* beyond the face and an outside element sees it taken away.  Nothing else   *)
(* of the mesh is touched.                                                    *)
(*                                                                            *)
(* A problem q:                                                               *)
(*   n           number of elements                                           *)
(*   inside      the elements inside the surface                              *)
(*   faces[c]    faces of element c that lie on the surface, as [N, P] in     *)
(*               units of 1/q.S (see DgScheme), N pointing out of c           *)
(*   inc         the incident field, the same everywhere: inc[1] + t * inc[2] *)
(*               (t in quarters)                                              *)
EXTENDS DgScheme

Incident(q, t) == [k \in 1..6 |-> 4 * q.inc[1][k] + t * q.inc[2][k]]      \* four times
Zero6 == [k \in 1..6 |-> 0]
Inside(q, c) == \E i \in DOMAIN q.inside : q.inside[i] = c
Beyond(q, c, t) == Times(IF Inside(q, c) THEN 1 ELSE -1, Incident(q, t))
Plus3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>

RECURSIVE Through(_, _, _, _, _)
Through(q, c, t, n, isE) ==
  IF n = 0 THEN <<0, 0, 0>>
  ELSE LET f == q.faces[c][n]
           a == IF isE THEN FaceE("", f.N, f.P, q.alpha2, Zero6, Beyond(q, c, t))
                       ELSE FaceH("", f.N, f.P, q.alpha2, Zero6, Beyond(q, c, t))
       IN Plus3(a, Through(q, c, t, n - 1, isE))
(* sixteen times S times volume times the mean rate of an element at rest *)
Injected(q, c, t) ==
  LET e == Through(q, c, t, Len(q.faces[c]), TRUE)
      h == Through(q, c, t, Len(q.faces[c]), FALSE)
  IN [k \in 1..6 |-> IF k <= 3 THEN e[k] ELSE h[k - 3]]
(* m[c]: volume times mean rate, in 1/S; quiet[c]: nothing happens anywhere in c *)
InjectedRight(q, t, m, quiet) ==
  /\ Len(m) = q.n
  /\ \A c \in 1..q.n :
       /\ \A k \in 1..6 : Abs(16 * m[c][k] - Injected(q, c, t)[k]) <= q.slack
       /\ Len(q.faces[c]) = 0 => quiet[c] = 1
(* A state that is the incident field inside and nothing outside stays as it  *)
(* is: still is the largest rate of change met anywhere.                      *)
StaysStill(q, still) == still = 0
=============================================================================
