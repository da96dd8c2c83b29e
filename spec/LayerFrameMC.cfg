CONSTANTS U = 3 Fields = {0, 1, 2} Entries <- SmallEntries
SPECIFICATION Spec
INVARIANTS Handed OfLength
PROPERTIES RoundTrip
CHECK_DEADLOCK FALSE
