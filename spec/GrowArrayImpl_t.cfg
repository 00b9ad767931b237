CONSTANTS
  Vals = {7, 8}
  MaxLen = 3
SPECIFICATION Spec
INVARIANT NoJunk
PROPERTY Refines
CHECK_DEADLOCK FALSE
