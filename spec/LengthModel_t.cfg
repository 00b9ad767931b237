SPECIFICATION LSpec
CONSTANTS MaxL = 30
 MaxF = 64
 MaxT = 80
INVARIANTS Least Fixed Share Monotone Nearest
CHECK_DEADLOCK FALSE
