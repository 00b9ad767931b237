CONSTANT Depth = 5
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
