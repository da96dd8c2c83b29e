SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxTag = 3
 MaxLoads = 2
INVARIANTS Once OnlyMeshEntities Kept SameDim
CHECK_DEADLOCK FALSE
