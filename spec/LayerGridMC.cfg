CONSTANTS MaxLayers = 2 MaxCells = 2 Lens = {1, 2} Seeds = {1, 2}
SPECIFICATION Spec
INVARIANTS InPlace SameLayers Whole AsIfInline
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
