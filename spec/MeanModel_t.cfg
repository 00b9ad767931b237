SPECIFICATION MSpec
CONSTANTS MaxN = 9
 MaxR = 4
 MaxV = 2
INVARIANTS Windows Bounded
CHECK_DEADLOCK FALSE
