SPECIFICATION Spec
INVARIANTS Agrees Laws Written
CHECK_DEADLOCK FALSE
