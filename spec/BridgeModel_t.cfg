CONSTANT Cells = 6
SPECIFICATION BSpec
INVARIANTS Ends InputKept AroundKept Delivered Memory
CHECK_DEADLOCK FALSE
