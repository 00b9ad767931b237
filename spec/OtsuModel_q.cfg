SPECIFICATION OSpec
CONSTANTS Bins = 5
 MaxCount = 3
INVARIANTS Optimal Frac
CHECK_DEADLOCK FALSE
