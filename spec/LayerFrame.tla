----------------------------- MODULE LayerFrame ------------------------------
(* The frame in which a layered face talks to its layers: a rotation whose    *)
(* first axis is the normal of the face, from the left side to the right one. *)
(* A frame is given as a map from fields to the frame, by columns: what the   *)
(* unit fields along x, y and z become.  Entries are in units of 1/U.         *)
EXTENDS Integers, Sequences

AbsOf(x) == IF x < 0 THEN -x ELSE x
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Turn(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Within(a, b, tol) == AbsOf(a - b) <= tol

Orthonormal(M, U, tol) == \A i, j \in 1..3 : Within(Dot(M[i], M[j]), IF i = j THEN U * U ELSE 0, tol * U)
\* columns of a rotation: the third is the first turned into the second
Proper(M, U, tol) == LET t == Turn(M[1], M[2]) IN \A i \in 1..3 : Within(t[i], U * M[3][i], tol * U)
FirstAxis(M) == <<M[1][1], M[2][1], M[3][1]>>
\* n of length k along the normal
AlongNormal(M, n, k, U, tol) == \A i \in 1..3 : Within(k * FirstAxis(M)[i], U * n[i], tol * k)
FrameRight(M, n, k, U, tol) == Orthonormal(M, U, tol) /\ Proper(M, U, tol) /\ AlongNormal(M, n, k, U, tol)

Into(M, v) == [i \in 1..3 |-> M[1][i] * v[1] + M[2][i] * v[2] + M[3][i] * v[3]]
Back(M, w) == [i \in 1..3 |-> Dot(M[i], w)]
=============================================================================
