SPECIFICATION SSpec
CONSTANTS MaxW = 3
 MaxH = 3
 MaxLen = 9
INVARIANTS Inside ScanDone FillDone
CHECK_DEADLOCK FALSE
