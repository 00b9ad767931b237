CONSTANT Sizes = {34, 43, 62}
SPECIFICATION LSpec
INVARIANT Lemmas
CHECK_DEADLOCK FALSE
