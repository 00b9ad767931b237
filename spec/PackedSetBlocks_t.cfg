CONSTANTS
  Vals = {1, 2}
  MaxBlockSize = 4
  MaxTotal = 5
  MaxSets = 3
SPECIFICATION Spec
INVARIANT Contiguous
PROPERTY Refines
CHECK_DEADLOCK FALSE
