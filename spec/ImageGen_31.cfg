CONSTANTS Depth = 3
 Bands = 1
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
