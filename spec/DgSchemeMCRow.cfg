SPECIFICATION Spec
CONSTANTS Cells = 3
 Order = 1
 Vals = {0, 1}
 Shift = 0
 Walls = {"PEC", "SMA"}
 Alphas = {0, 2}
 Materials = {1}
 Sigmas = {0}
INVARIANTS NeverGrows Conserves Duality Stationary
CHECK_DEADLOCK FALSE
