CONSTANTS Cells = 3 Ranks = 3 Rounds = 2 Values = {1, 5}
SPECIFICATION Spec
INVARIANTS AsAlone InStep
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
