CONSTANTS Calls = 2
 L = 5
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
