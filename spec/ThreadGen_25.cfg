CONSTANTS N = 2
 Steps = 5
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
