------------------------------- MODULE Dipole --------------------------------
(* When fields given on a lattice of space and time satisfy Maxwell's         *)
(* equations of free space:                                                   *)
(*     dE/dt = curl H,   dH/dt = -curl E,   div E = div H = 0                 *)
(* Derivatives are differences of fourth order: lines[a][i] holds the six     *)
(* components (Ex Ey Ez Hx Hy Hz) two and one lattice steps before, and one   *)
(* and two after, a point along x, y, z (a = 1, 2, 3) and in time (a = 4).    *)
EXTENDS Integers, Sequences

(* twelve lattice steps times the derivative of component k along a *)
D(lines, a, k) == 8 * (lines[a][3][k] - lines[a][2][k]) - (lines[a][4][k] - lines[a][1][k])
(* curl of the components o + 1 .. o + 3 *)
Curl(lines, o) == <<D(lines, 2, o + 3) - D(lines, 3, o + 2), D(lines, 3, o + 1) - D(lines, 1, o + 3), D(lines, 1, o + 2) - D(lines, 2, o + 1)>>
Div(lines, o) == D(lines, 1, o + 1) + D(lines, 2, o + 2) + D(lines, 3, o + 3)
(* what is left over: eight numbers *)
Rest(lines) == [i \in 1..3 |-> D(lines, 4, i) - Curl(lines, 3)[i]]
               \o [i \in 1..3 |-> D(lines, 4, 3 + i) + Curl(lines, 0)[i]]
               \o <<Div(lines, 0), Div(lines, 3)>>

(* -- a source at rest at the origin, along z ----------------------------- *)
(* Turning the point about z by the angle with cosine 3/5 turns the field.    *)
Turned5(v) == <<3 * v[1] - 4 * v[2], 4 * v[1] + 3 * v[2], 5 * v[3], 3 * v[4] - 4 * v[5], 4 * v[4] + 3 * v[5], 5 * v[6]>>
(* E lies in the plane of z and the point, H is perpendicular to it. *)
Meridian(v, at) == <<v[1] * at[2] - v[2] * at[1], v[4] * at[1] + v[5] * at[2], v[6]>>
=============================================================================
