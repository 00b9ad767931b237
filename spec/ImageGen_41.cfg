CONSTANTS Depth = 4
 Bands = 1
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
