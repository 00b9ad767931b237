CONSTANTS Depth = 4
 Bands = 2
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
