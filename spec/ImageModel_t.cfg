CONSTANTS
  MaxW = 2
  MaxH = 2
  MaxB = 2
  MaxLevel = 3
  Other = {0, 2}
  Vals = {7}
SPECIFICATION MSpec
INVARIANTS InBuffer Distinct RowMajor ViewsComposed
PROPERTIES OneSample CopyExact
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
