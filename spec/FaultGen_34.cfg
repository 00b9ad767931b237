CONSTANTS Calls = 3
 L = 4
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
