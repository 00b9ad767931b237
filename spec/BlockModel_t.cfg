SPECIFICATION MSpec
CONSTANTS MaxW = 19
 MaxH = 15
INVARIANT Layout
CHECK_DEADLOCK FALSE
