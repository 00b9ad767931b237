SPECIFICATION MSpec
CONSTANTS MaxN = 6
 MaxR = 2
 MaxV = 2
INVARIANTS Windows Bounded
CHECK_DEADLOCK FALSE
