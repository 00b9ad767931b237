CONSTANTS Calls = 2
 L = 4
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
