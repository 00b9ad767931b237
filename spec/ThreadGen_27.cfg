CONSTANTS N = 2
 Steps = 7
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
