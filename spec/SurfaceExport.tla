---------------------------- MODULE SurfaceExport ----------------------------
(* Fields on a closed surface, exported by every rank that owns a piece of it *)
(* and turned into a far field afterwards.                                    *)
(*                                                                            *)
(* A rank's file is a header, the geometry of its piece, and one record per   *)
(* snapshot.  A run may stop at any byte.  Whoever reads the files uses the   *)
(* snapshots that are complete on every rank.                                 *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

HeaderBytes == 20
\* f: [dim, points, dofs]
GeometryBytes(f) == 8 * f.points * (f.dim + 4)
RecordBytes(f) == 8 * (1 + 6 * f.dofs)
FileBytes(f, n) == HeaderBytes + GeometryBytes(f) + n * RecordBytes(f)

\* the complete snapshots among the first b bytes; -1 if not even the geometry is there
CompleteIn(b, start, record) == IF b < start THEN -1 ELSE (b - start) \div record
Complete(f, b) == CompleteIn(b, HeaderBytes + GeometryBytes(f), RecordBytes(f))

\* what a reader may use of the files fs (a function on ranks) cut to the lengths bs
Usable(counts) == MinOf({counts[r] : r \in DOMAIN counts})

(* ---- the far field, for surfaces of boxes on an integer grid ------------- *)
(* Frequencies are multiples m/4 and times and places are integers, so every  *)
(* phase is a power of the imaginary unit and amplitudes are Gaussian          *)
(* integers.  Directions are the axes.  Fields are affine, and either depend  *)
(* on the coordinate along the direction only, so that faces along it cancel  *)
(* in pairs, or have no component along it, so that these add nothing.        *)
CZero == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
CNorm(a) == a[1] * a[1] + a[2] * a[2]
Turn(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>

RECURSIVE CSum(_, _)
CSum(f, n) == IF n = 0 THEN CZero ELSE CAdd(f[n], CSum(f, n - 1))

\* angles in quarter turns
Cos4(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin4(k) == Cos4(k - 1)
RHat(a) == <<Sin4(a[1]) * Cos4(a[2]), Sin4(a[1]) * Sin4(a[2]), Cos4(a[1])>>
ThetaHat(a) == <<Cos4(a[1]) * Cos4(a[2]), Cos4(a[1]) * Sin4(a[2]), 0 - Sin4(a[1])>>
PhiHat(a) == <<0 - Sin4(a[2]), Cos4(a[2]), 0>>
AxisOf(v) == CHOOSE d \in 1..3 : v[d] # 0

\* the two faces of a box across axis d: place, outward side, area
BoxArea(dim, box, d) ==
  LET w(i) == IF i > dim \/ i = d THEN 1 ELSE box.hi[i] - box.lo[i] IN w(1) * w(2) * w(3)
Mid2(dim, box, d, at) == [i \in 1..3 |-> IF i > dim THEN 0 ELSE IF i = d THEN 2 * at ELSE box.lo[i] + box.hi[i]]
FacesAcross(dim, box, d) ==
  {[at |-> box.lo[d], side |-> -1, area |-> BoxArea(dim, box, d), mid2 |-> Mid2(dim, box, d, box.lo[d])],
   [at |-> box.hi[d], side |-> 1, area |-> BoxArea(dim, box, d), mid2 |-> Mid2(dim, box, d, box.hi[d])]}

\* twice the mean of component c of a snapshot over a face with twice the centre q
At(snap, c, q) == 2 * snap.c[c][1] + snap.c[c][2] * q[1] + snap.c[c][3] * q[2] + snap.c[c][4] * q[3]

\* component i of e_d x F, F being components off+1..off+3
CrossAxis(snap, off, d, q, i) ==
  IF i = d THEN 0
  ELSE IF i = (d % 3) + 1 THEN 0 - At(snap, off + ((d + 1) % 3) + 1, q)
       ELSE At(snap, off + (d % 3) + 1, q)

\* the contribution of one face across the direction, for one snapshot
FaceTerm(snap, off, dir, m, face, i) ==
  LET d == AxisOf(dir)
  IN CScale(face.side * face.area * CrossAxis(snap, off, d, face.mid2, i),
            CMul(Turn(m * dir[d] * face.at), Turn(0 - m * snap.t)))

RECURSIVE SetSum(_, _)
SetSum(op(_), S) == IF S = {} THEN CZero ELSE LET x == CHOOSE y \in S : TRUE IN CAdd(op(x), SetSum(op, S \ {x}))

\* 2n times the amplitude: the sum over snapshots, boxes and their faces
Amplitude(dim, boxes, snaps, off, dir, m, i) ==
  CSum([k \in 1..Len(snaps) |->
         CSum([b \in 1..Len(boxes) |->
                LET op(f) == FaceTerm(snaps[k], off, dir, m, f, i) IN SetSum(op, FacesAcross(dim, boxes[b], AxisOf(dir)))],
              Len(boxes))], Len(snaps))

Along(dim, boxes, snaps, off, dir, m, u) ==
  CAdd(CAdd(CScale(u[1], Amplitude(dim, boxes, snaps, off, dir, m, 1)), CScale(u[2], Amplitude(dim, boxes, snaps, off, dir, m, 2))),
       CScale(u[3], Amplitude(dim, boxes, snaps, off, dir, m, 3)))

\* 4n^2 times the radiated power in units of the prefactor; N comes from n x H, L from -n x E
Power(dim, boxes, snaps, ang, m) ==
  LET dir == RHat(ang)
      NTh == Along(dim, boxes, snaps, 3, dir, m, ThetaHat(ang))
      NPh == Along(dim, boxes, snaps, 3, dir, m, PhiHat(ang))
      LTh == CScale(-1, Along(dim, boxes, snaps, 0, dir, m, ThetaHat(ang)))
      LPh == CScale(-1, Along(dim, boxes, snaps, 0, dir, m, PhiHat(ang)))
  IN CNorm(CAdd(LPh, NTh)) + CNorm(CSub(LTh, NPh))

\* the snapshots a reader uses: complete everywhere and not later than asked for
UsedSnaps(snaps, n, upto) == SelectSeq(SubSeq(snaps, 1, n), LAMBDA s : s.t <= upto)
=============================================================================
