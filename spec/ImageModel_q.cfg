CONSTANTS
  MaxW = 2
  MaxH = 2
  MaxB = 1
  MaxLevel = 2
  Other = {1, 2}
  Vals = {7}
SPECIFICATION MSpec
INVARIANTS InBuffer Distinct RowMajor ViewsComposed
PROPERTIES OneSample CopyExact
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
