CONSTANT Depth = 2
SPECIFICATION GSpec
INVARIANTS Emit Shape
CHECK_DEADLOCK FALSE
