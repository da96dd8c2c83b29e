----------------------------- MODULE PlaneWave -------------------------------
(* A plane wave and what it is at a place and a moment.                       *)
(*                                                                            *)
(* Directions are columns of rational rotations: an integer quaternion q      *)
(* gives three orthogonal integer vectors of length N, so every unit vector   *)
(* is such a column divided by N.  Time is counted in quarters.  The wave     *)
(* form is f(x) = 3 + x, whose value tells its argument.                      *)
EXTENDS Integers, Sequences

VARIABLES wave, seen

Norm(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
ColK(q) == <<q[1]*q[1] + q[2]*q[2] - q[3]*q[3] - q[4]*q[4], 2*(q[2]*q[3] + q[1]*q[4]), 2*(q[2]*q[4] - q[1]*q[3])>>
ColP(q) == <<2*(q[2]*q[3] - q[1]*q[4]), q[1]*q[1] - q[2]*q[2] + q[3]*q[3] - q[4]*q[4], 2*(q[3]*q[4] + q[1]*q[2])>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Neg(a) == <<-a[1], -a[2], -a[3]>>
Times(s, a) == <<s*a[1], s*a[2], s*a[3]>>

None == [on |-> FALSE]
Idle == wave = None /\ seen = <<>>

(* spec is "E" or "H": which of the two fields the polarisation names.        *)
(* sk and sp are the signs of the factors the two vectors were scaled by.     *)
Launch(q, spec, sk, sp) ==
  /\ Norm(q) > 0
  /\ LET N == Norm(q)
         K == Times(sk, ColK(q))
         P == Times(sp, ColP(q))
         Q == [d \in 1..3 |-> Cross(K, P)[d] \div N]     \* exact: also a column
     IN wave' = [on |-> TRUE, N |-> N, K |-> K,
                 E |-> IF spec = "E" THEN P ELSE Neg(Q),
                 H |-> IF spec = "E" THEN Q ELSE P]
  /\ seen' = <<>>

(* 4 N f(k.r - t)                                                             *)
Form(w, r, j) == 12 * w.N + 4 * Dot(w.K, r) - j * w.N

(* The two fields at r and t = j/4, times 4 N^2.                              *)
FieldE(w, r, j) == Times(Form(w, r, j), w.E)
FieldH(w, r, j) == Times(Form(w, r, j), w.H)

Sample(r, j) ==
  /\ wave.on
  /\ seen' = Append(seen, [r |-> r, j |-> j, E |-> FieldE(wave, r, j), H |-> FieldH(wave, r, j)])
  /\ UNCHANGED wave

Directions ==
  wave.on => /\ Dot(wave.E, wave.K) = 0 /\ Dot(wave.H, wave.K) = 0 /\ Dot(wave.E, wave.H) = 0
             /\ Dot(wave.E, wave.E) = wave.N * wave.N /\ Dot(wave.H, wave.H) = wave.N * wave.N
             /\ Cross(wave.E, wave.H) = Times(wave.N, wave.K)
(* Samples with the same distance along the direction minus time are equal.   *)
Travels ==
  \A a, b \in DOMAIN seen :
    4 * Dot(wave.K, seen[a].r) - seen[a].j * wave.N = 4 * Dot(wave.K, seen[b].r) - seen[b].j * wave.N
      => seen[a].E = seen[b].E /\ seen[a].H = seen[b].H
=============================================================================
