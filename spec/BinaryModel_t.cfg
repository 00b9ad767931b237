CONSTANT Sizes = {34, 43, 62, 26}
SPECIFICATION BSpec
INVARIANT Agree
CHECK_DEADLOCK FALSE
