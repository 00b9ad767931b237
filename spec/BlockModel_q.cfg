SPECIFICATION MSpec
CONSTANTS MaxW = 10
 MaxH = 10
INVARIANT Layout
CHECK_DEADLOCK FALSE
