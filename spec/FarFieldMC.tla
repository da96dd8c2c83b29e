----------------------------- MODULE FarFieldMC ------------------------------
(* A surface handed out to ranks face by face, and a growing list of          *)
(* snapshots: whatever the ranks hold, their amplitudes add up to the whole.  *)
EXTENDS SurfaceExport
CONSTANTS Ranks, Values, MaxSnaps
VARIABLES boxes, snaps, owner

vars == <<boxes, snaps, owner>>
Dim == 3
Boxes == {<<[lo |-> <<1, 1, 1>>, hi |-> <<2, 3, 2>>]>>,
          <<[lo |-> <<0, 1, 1>>, hi |-> <<2, 2, 2>>], [lo |-> <<3, 1, 1>>, hi |-> <<4, 3, 2>>]>>}
Dir == <<1, 0, 0>>
Ang == <<1, 0>>
Faces == UNION {{[b |-> b, f |-> f] : f \in FacesAcross(Dim, boxes[b], 1)} : b \in DOMAIN boxes}

Init == boxes \in Boxes /\ snaps = <<>> /\ owner = <<>>
Hand(x, r) == x \in Faces /\ x \notin DOMAIN owner /\ owner' = [y \in DOMAIN owner \cup {x} |-> IF y = x THEN r ELSE owner[y]]
              /\ UNCHANGED <<boxes, snaps>>
Snap(t, v, w) ==
  /\ Len(snaps) < MaxSnaps /\ (IF snaps = <<>> THEN TRUE ELSE t > snaps[Len(snaps)].t)
  /\ snaps' = Append(snaps, [t |-> t, c |-> <<<<v, 0, 0, 0>>, <<w, 1, 0, 0>>, <<0, 0, 0, 0>>, <<w, 0, 0, 0>>, <<v, 0, 0, 0>>, <<1, 0, 0, 0>>>>])
  /\ UNCHANGED <<boxes, owner>>
HandOut == snaps # <<>> /\ Faces # DOMAIN owner /\ \E r \in Ranks : Hand(CHOOSE x \in Faces : x \notin DOMAIN owner, r)
Record == owner = <<>> /\ \E t \in 0..3, v, w \in Values : Snap(t, v, w)
Next == HandOut \/ Record
Spec == Init /\ [][Next]_vars

Piece(r, off, m, i) ==
  CSum([k \in 1..Len(snaps) |-> LET op(x) == FaceTerm(snaps[k], off, Dir, m, x.f, i)
                                IN SetSum(op, {x \in DOMAIN owner : owner[x] = r})], Len(snaps))
RECURSIVE Pieces(_, _, _, _)
Pieces(R, off, m, i) == IF R = {} THEN CZero ELSE LET r == CHOOSE q \in R : TRUE IN CAdd(Piece(r, off, m, i), Pieces(R \ {r}, off, m, i))

SplitFree == DOMAIN owner = Faces =>
  \A m \in 1..2, i \in 1..3, off \in {0, 3} : Pieces(Ranks, off, m, i) = Amplitude(Dim, boxes, snaps, off, Dir, m, i)
Doubled == [k \in DOMAIN snaps |-> [snaps[k] EXCEPT !.c = [c \in 1..6 |-> [j \in 1..4 |-> 2 * snaps[k].c[c][j]]]]]
Quadratic == owner = <<>> => Power(Dim, boxes, Doubled, Ang, 1) = 4 * Power(Dim, boxes, snaps, Ang, 1)
NotNegative == owner = <<>> => Power(Dim, boxes, snaps, Ang, 1) >= 0
\* moving everything sideways changes nothing
Moved == [b \in DOMAIN boxes |-> [lo |-> [boxes[b].lo EXCEPT ![2] = @ + 3], hi |-> [boxes[b].hi EXCEPT ![2] = @ + 3]]]
SidewaysFree == owner = <<>> => Power(Dim, Moved, snaps, Ang, 1) = Power(Dim, boxes, snaps, Ang, 1)
\* a delay of all snapshots only turns the phase
Delayed == [k \in DOMAIN snaps |-> [snaps[k] EXCEPT !.t = @ + 5]]
DelayFree == owner = <<>> => Power(Dim, boxes, Delayed, Ang, 1) = Power(Dim, boxes, snaps, Ang, 1)
=============================================================================
