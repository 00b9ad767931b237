CONSTANTS
  Sizes = {33}
  First = {}
  Rounds = 1
  Limits = {3006}
SPECIFICATION CSpec
INVARIANTS Correct StepBound
CHECK_DEADLOCK FALSE
