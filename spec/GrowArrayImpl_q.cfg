CONSTANTS
  Vals = {7, 8}
  MaxLen = 2
SPECIFICATION Spec
INVARIANT NoJunk
PROPERTY Refines
CHECK_DEADLOCK FALSE
