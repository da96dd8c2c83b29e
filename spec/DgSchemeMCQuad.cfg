SPECIFICATION Spec
CONSTANTS Cells = 2
 Order = 2
 Vals = {0, 1}
 Shift = 0
 Walls = {"PEC", "PMC", "SMA"}
 Alphas = {0, 2}
 Materials = {1}
 Sigmas = {0}
INVARIANTS NeverGrows Conserves Duality Stationary
CHECK_DEADLOCK FALSE
