------------------------------ MODULE Viewpoint ------------------------------
(* The same problem seen from elsewhere: shifted, turned or mirrored.  A turn *)
(* or mirror is a matrix of integers over a common denominator.  The electric *)
(* field follows it; the magnetic field is axial and also changes sign with   *)
(* handedness, which keeps the curl equations as they are.                    *)
EXTENDS Integers, Sequences
D3 == 1..3
Apply(m, v) == [i \in D3 |-> m[i][1] * v[1] + m[i][2] * v[2] + m[i][3] * v[3]]
Det(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
        - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
        + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Hand(m) == IF Det(m) < 0 THEN -1 ELSE 1
(* times the denominator of m *)
Electric(m, v) == Apply(m, v)
Magnetic(m, v) == [i \in D3 |-> Hand(m) * Apply(m, v)[i]]
(* an isometry: rows of length den, at right angles *)
Isometry(m, den) == \A i, j \in D3 :
   m[i][1] * m[j][1] + m[i][2] * m[j][2] + m[i][3] * m[j][3] = IF i = j THEN den * den ELSE 0
=============================================================================
