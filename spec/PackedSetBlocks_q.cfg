CONSTANTS
  Vals = {1, 2}
  MaxBlockSize = 3
  MaxTotal = 4
  MaxSets = 3
SPECIFICATION Spec
INVARIANT Contiguous
PROPERTY Refines
CHECK_DEADLOCK FALSE
