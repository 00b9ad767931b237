CONSTANTS M = 12
 W = 3
 Bands = 2
 Blocks = 3
 Variant = 0
 Parts = {"img","ps"}
SPECIFICATION Spec
INVARIANTS Never Sound Empty
CHECK_DEADLOCK FALSE
