CONSTANTS
 MaxB = 3
 MaxSets = 3
 MaxSize = 3
 MaxBlobs = 2
SPECIFICATION TSpec
INVARIANT Arrives
CHECK_DEADLOCK FALSE
