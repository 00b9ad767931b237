SPECIFICATION OSpec
CONSTANTS Bins = 6
 MaxCount = 4
INVARIANTS Optimal Frac
CHECK_DEADLOCK FALSE
