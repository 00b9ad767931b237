CONSTANTS
  Sizes = {34, 61}
  First = {}
  Rounds = 1
  Limits = {999}
SPECIFICATION CSpec
INVARIANTS Correct StepBound
CHECK_DEADLOCK FALSE
