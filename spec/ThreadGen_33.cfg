CONSTANTS N = 3
 Steps = 3
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
