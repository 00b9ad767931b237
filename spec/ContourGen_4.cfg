CONSTANT Depth = 4
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
