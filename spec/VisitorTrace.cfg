SPECIFICATION Spec
INVARIANTS NoCrash Right Unchanged
CHECK_DEADLOCK FALSE
