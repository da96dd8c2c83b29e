CONSTANTS Cells = 4 Ranks = 3 Rounds = 3 Values = {3, 8}
SPECIFICATION Spec
INVARIANTS AsAlone InStep
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
