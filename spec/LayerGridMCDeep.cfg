CONSTANTS MaxLayers = 3 MaxCells = 2 Lens = {1} Seeds = {1}
SPECIFICATION Spec
INVARIANTS InPlace SameLayers Whole AsIfInline
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
