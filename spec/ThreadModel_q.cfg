CONSTANTS Thr = {1,2}
 L = 3
 Vals = {0,1}
SPECIFICATION Spec
INVARIANTS Disjoint Commute Right
PROPERTY Refines
CHECK_DEADLOCK FALSE
