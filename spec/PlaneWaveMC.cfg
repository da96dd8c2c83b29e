SPECIFICATION Spec
CONSTANTS Range = 1
 MaxSamples = 1
 Places = {0, 1, 3}
 Moments = {0, 3, 8}
INVARIANTS Directions Travels
CHECK_DEADLOCK FALSE
