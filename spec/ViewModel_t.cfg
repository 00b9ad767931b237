SPECIFICATION VSpec
CONSTANTS MaxW = 4
 MaxH = 4
 MaxOff = 3
 MaxPad = 3
INVARIANTS ReadsInside WritesInside Around Same
CHECK_DEADLOCK FALSE
