CONSTANT Depth = 3
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
