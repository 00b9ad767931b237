CONSTANTS N = 3
 Steps = 4
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
