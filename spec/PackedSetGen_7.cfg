CONSTANT Depth = 7
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
