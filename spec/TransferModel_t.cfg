CONSTANTS
 MaxB = 4
 MaxSets = 4
 MaxSize = 4
 MaxBlobs = 2
SPECIFICATION TSpec
INVARIANT Arrives
CHECK_DEADLOCK FALSE
