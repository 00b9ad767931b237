SPECIFICATION KSpec
CONSTANTS MaxW1 = 45
 MaxW2 = 11
INVARIANTS Symmetric Decreasing Separable Centred Matching
CHECK_DEADLOCK FALSE
