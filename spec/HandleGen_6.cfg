CONSTANT Depth = 6
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
