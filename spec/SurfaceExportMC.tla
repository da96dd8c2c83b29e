--------------------------- MODULE SurfaceExportMC ---------------------------
(* Ranks write their files byte by byte, none more than one snapshot ahead of *)
(* another, until all is written or the run is cut off.  Then somebody reads. *)
EXTENDS SurfaceExport
CONSTANTS Ranks, Start, Record, Snaps
VARIABLES bytes, phase, used
MCRanks == 1..2
MCRanks3 == 1..3
MCRecord == <<3, 5>>
MCRecord3 == <<3, 5, 4>>

vars == <<bytes, phase, used>>
Full(r) == Start + Snaps * Record[r]
Done(r) == CompleteIn(bytes[r], Start, Record[r])
Begun(r) == IF bytes[r] <= Start THEN 0 ELSE (bytes[r] - Start + Record[r] - 1) \div Record[r]

Init == bytes = [r \in Ranks |-> 0] /\ phase = "running" /\ used = -2

\* nobody begins snapshot k+1 before everybody has begun k and finished k-1
MayWrite(r) == \A q \in Ranks : Done(q) >= Done(r) - 1 /\ (Done(r) >= 1 => bytes[q] >= Start)
WriteByte(r) ==
  /\ phase = "running" /\ bytes[r] < Full(r) /\ MayWrite(r)
  /\ bytes' = [bytes EXCEPT ![r] = @ + 1] /\ UNCHANGED <<phase, used>>
Finish == phase = "running" /\ (\A r \in Ranks : bytes[r] = Full(r)) /\ phase' = "done" /\ UNCHANGED <<bytes, used>>
CutOff == phase = "running" /\ phase' = "cut" /\ UNCHANGED <<bytes, used>>
Read == /\ phase \in {"done", "cut"} /\ phase' = "read"
        /\ used' = Usable([r \in Ranks |-> Done(r)]) /\ UNCHANGED bytes
Write == \E r \in Ranks : WriteByte(r)
Next == Write \/ Finish \/ CutOff \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish \/ Read) /\ WF_vars(Write)

WholeOnly == phase = "read" /\ used >= 0 => \A r \in Ranks : Start + used * Record[r] <= bytes[r]
NothingLost == phase = "read" /\ used >= 0 => \E r \in Ranks : bytes[r] < Start + (used + 1) * Record[r]
NearlyAll == phase = "read" => \A r \in Ranks : Begun(r) <= Max2(used, 0) + 2
AllOfACompleteRun == phase = "read" /\ (\A r \in Ranks : bytes[r] = Full(r)) => used = Snaps
EventuallyRead == <>(phase = "read")
=============================================================================
