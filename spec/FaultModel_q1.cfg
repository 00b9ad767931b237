CONSTANTS M = 12
 W = 2
 Bands = 2
 Blocks = 2
 Variant = 0
 Parts = {"pl"}
SPECIFICATION Spec
INVARIANTS Never Sound Empty
CHECK_DEADLOCK FALSE
