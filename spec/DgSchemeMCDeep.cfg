SPECIFICATION Spec
CONSTANTS Cells = 2
 Order = 1
 Vals = {0, 1, 2}
 Shift = 1
 Walls = {"PEC", "PMC", "SMA"}
 Alphas = {0, 2}
 Materials = {1}
 Sigmas = {0}
INVARIANTS NeverGrows Conserves Duality Stationary
CHECK_DEADLOCK FALSE
