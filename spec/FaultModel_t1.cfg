CONSTANTS M = 16
 W = 2
 Bands = 3
 Blocks = 2
 Variant = 0
 Parts = {"pl"}
SPECIFICATION Spec
INVARIANTS Never Sound Empty
CHECK_DEADLOCK FALSE
