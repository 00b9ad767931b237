SPECIFICATION RSpec
CONSTANTS MaxW = 7
 MaxH = 7
 Normalised = TRUE
INVARIANTS Writes Partition
CHECK_DEADLOCK FALSE
