---------------------------- MODULE LayerFrameMC -----------------------------
(* All frames with small rational axes: sending a field in and bringing it    *)
(* back changes nothing, and nothing that is not a rotation would do.         *)
EXTENDS LayerFrame
CONSTANTS U, Fields, Entries
SmallEntries == -3..3
LargeEntries == -5..5
VARIABLES frame, field, here
vars == <<frame, field, here>>
Cols == {v \in Entries \X Entries \X Entries : Dot(v, v) = U * U}
Frames == {M \in Cols \X Cols \X Cols : Orthonormal(M, U, 0) /\ Proper(M, U, 0)}
Mirrors == {M \in Cols \X Cols \X Cols : Orthonormal(M, U, 0) /\ ~Proper(M, U, 0)}
Init == frame \in Frames \cup Mirrors /\ field \in Fields \X Fields \X Fields /\ here = "out"
Send == here = "out" /\ field' = Into(frame, field) /\ here' = "in" /\ UNCHANGED frame
Bring == here = "in" /\ field' = Back(frame, field) /\ here' = "back" /\ UNCHANGED frame
Next == Send \/ Bring
Spec == Init /\ [][Next]_vars
RoundTrip == [][here = "in" => \E v \in Fields \X Fields \X Fields : field' = [i \in 1..3 |-> U * U * v[i]]]_vars
(* only a proper frame keeps the direction of power flow *)
Flow(M) == LET a == <<1, 2, 0>> b == <<0, 1, 3>>
           IN Turn(Into(M, a), Into(M, b)) = [i \in 1..3 |-> U * Into(M, Turn(a, b))[i]]
Handed == Proper(frame, U, 0) <=> Flow(frame)
OfLength == here = "in" => Dot(field, field) % (U * U) = 0
=============================================================================
