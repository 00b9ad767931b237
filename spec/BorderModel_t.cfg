SPECIFICATION BSpec
CONSTANTS MaxW = 7
 MaxH = 6
 Far = 22
INVARIANT Walk
CHECK_DEADLOCK FALSE
