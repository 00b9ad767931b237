CONSTANTS MaxW = 3
 MaxH = 4
 Pads = {0, 1, 2}
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
