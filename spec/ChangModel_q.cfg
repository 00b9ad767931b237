CONSTANTS
  Sizes = {33}
  First = {}
  Rounds = 1
  Limits = {999}
SPECIFICATION CSpec
INVARIANTS Correct StepBound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
