SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Layers = {1, 2, 3, 4}
  Subs = 2
INVARIANTS SameAsAlone Untouched
PROPERTY AllDone
CHECK_DEADLOCK FALSE
