CONSTANTS Depth = 3
 Bands = 2
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
