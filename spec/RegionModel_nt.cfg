SPECIFICATION RSpec
CONSTANTS MaxW = 12
 MaxH = 12
 Normalised = TRUE
INVARIANTS Writes Partition
CHECK_DEADLOCK FALSE
