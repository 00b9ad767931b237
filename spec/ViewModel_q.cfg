SPECIFICATION VSpec
CONSTANTS MaxW = 3
 MaxH = 3
 MaxOff = 2
 MaxPad = 2
INVARIANTS ReadsInside WritesInside Around Same
CHECK_DEADLOCK FALSE
