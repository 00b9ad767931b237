CONSTANTS MaxW = 3
 MaxH = 3
 Pads = {0, 2}
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
