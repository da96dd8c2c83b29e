SPECIFICATION Spec
CONSTANTS Cells = 2
 Order = 1
 Vals = {0, 1}
 Shift = 0
 Walls = {"PEC", "SMA"}
 Alphas = {1}
 Materials = {1, 2}
 Sigmas = {0, 1}
INVARIANTS NeverGrows Conserves Duality Stationary
CHECK_DEADLOCK FALSE
