SPECIFICATION RSpec
CONSTANTS MaxW = 9
 MaxH = 9
 Normalised = FALSE
INVARIANTS Writes Partition
CHECK_DEADLOCK FALSE
