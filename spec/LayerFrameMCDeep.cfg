CONSTANTS U = 5 Fields = {0, 1, 2} Entries <- LargeEntries
SPECIFICATION Spec
INVARIANTS Handed OfLength
PROPERTIES RoundTrip
CHECK_DEADLOCK FALSE
