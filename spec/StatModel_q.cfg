SPECIFICATION SSpec
CONSTANTS MaxW = 3
 MaxH = 3
 MaxLen = 7
INVARIANTS Inside ScanDone FillDone
CHECK_DEADLOCK FALSE
