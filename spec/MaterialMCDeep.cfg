SPECIFICATION Spec
CONSTANTS Slots = {1, 2}
 Nums = {1, 2, 3}
 Dens = {1, 2}
INVARIANTS Consistent OnlyAllowed
CHECK_DEADLOCK FALSE
