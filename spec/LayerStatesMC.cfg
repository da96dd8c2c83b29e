SPECIFICATION Spec
CONSTANTS
  Layers = {1, 2}
  Dts = {1, 2}
  Aheads = {0, 1}
  Trials = {7, 8}
  MaxSteps = 2
  MaxAsked = 3
INVARIANTS OnlyAccepted OncePerStep InTime SameAnswers
PROPERTY AskingChangesNothing
CHECK_DEADLOCK FALSE
