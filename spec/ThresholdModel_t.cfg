SPECIFICATION MSpec
CONSTANTS Shapes = {11, 21, 13, 22}
 Vals = {0, 1, 3}
 MaxCalls = 2
INVARIANTS Definition MeanInside
CHECK_DEADLOCK FALSE
