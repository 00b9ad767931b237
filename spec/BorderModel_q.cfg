SPECIFICATION BSpec
CONSTANTS MaxW = 4
 MaxH = 3
 Far = 9
INVARIANT Walk
CHECK_DEADLOCK FALSE
