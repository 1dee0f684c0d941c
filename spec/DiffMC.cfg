CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Accepted ReadBack Symmetric Spoiled OnlyThisPair
CHECK_DEADLOCK FALSE
