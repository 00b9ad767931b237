CONSTANTS M = 12
 W = 2
 Bands = 2
 Blocks = 2
 Variant = 3
 Parts = {"img","pl","ps"}
SPECIFICATION Spec
INVARIANTS Never Sound Empty
CHECK_DEADLOCK FALSE
