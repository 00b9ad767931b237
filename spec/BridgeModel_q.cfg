CONSTANT Cells = 4
SPECIFICATION BSpec
INVARIANTS Ends InputKept AroundKept Delivered Memory
CHECK_DEADLOCK FALSE
