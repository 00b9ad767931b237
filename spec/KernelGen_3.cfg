CONSTANT Depth = 3
SPECIFICATION GSpec
INVARIANTS Emit Shape
CHECK_DEADLOCK FALSE
