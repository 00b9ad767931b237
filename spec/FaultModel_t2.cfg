CONSTANTS M = 16
 W = 3
 Bands = 2
 Blocks = 4
 Variant = 0
 Parts = {"img","ps"}
SPECIFICATION Spec
INVARIANTS Never Sound Empty
CHECK_DEADLOCK FALSE
