SPECIFICATION Spec
CONSTANTS Range = 1
 MaxSamples = 2
 Places = {0, 1}
 Moments = {0, 4}
INVARIANTS Directions Travels
CHECK_DEADLOCK FALSE
