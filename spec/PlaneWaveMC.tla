---------------------------- MODULE PlaneWaveMC ------------------------------
EXTENDS PlaneWave
CONSTANTS Range, MaxSamples, Places, Moments
Init == Idle
LaunchOne == \E q \in (-Range..Range) \X (-Range..Range) \X (-Range..Range) \X (-Range..Range) :
             \E s \in {"E", "H"}, sk \in {-1, 1}, sp \in {-1, 1} : ~wave.on /\ Launch(q, s, sk, sp)
SampleOne == \E r \in Places \X Places \X Places, j \in Moments : Len(seen) < MaxSamples /\ Sample(r, j)
Next == LaunchOne \/ SampleOne
Spec == Init /\ [][Next]_<<wave, seen>>
=============================================================================
