SPECIFICATION TraceSpec
INVARIANTS Once OnlyMeshEntities
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
