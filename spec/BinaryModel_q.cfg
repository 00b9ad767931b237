CONSTANT Sizes = {33, 24, 15, 51, 10, 11}
SPECIFICATION BSpec
INVARIANT Agree
CHECK_DEADLOCK FALSE
