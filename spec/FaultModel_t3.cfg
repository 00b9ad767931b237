CONSTANTS M = 14
 W = 1
 Bands = 1
 Blocks = 2
 Variant = 0
 Parts = {"img","pl","ps"}
SPECIFICATION Spec
INVARIANTS Never Sound Empty
CHECK_DEADLOCK FALSE
