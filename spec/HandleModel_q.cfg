CONSTANTS
 Objects = {1, 2}
 Addresses = {1, 2, 3}
 Limits = {0, 5}
SPECIFICATION HSpec
INVARIANTS Safe NoLeak
PROPERTY Refines
CHECK_DEADLOCK FALSE
