CONSTANT Sizes = {33, 24}
SPECIFICATION LSpec
INVARIANT Lemmas
CHECK_DEADLOCK FALSE
