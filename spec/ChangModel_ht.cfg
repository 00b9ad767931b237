CONSTANTS
  Sizes = {33}
  First = {495, 511, 341, 186, 170}
  Rounds = 2
  Limits = {999}
SPECIFICATION CSpec
INVARIANTS Correct StepBound
CHECK_DEADLOCK FALSE
