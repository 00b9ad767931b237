SPECIFICATION LSpec
CONSTANTS MaxL = 12
 MaxF = 20
 MaxT = 24
INVARIANTS Least Fixed Share Monotone Nearest
CHECK_DEADLOCK FALSE
