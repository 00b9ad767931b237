SPECIFICATION RSpec
CONSTANTS MaxW = 5
 MaxH = 5
 Normalised = FALSE
INVARIANTS Writes Partition
CHECK_DEADLOCK FALSE
