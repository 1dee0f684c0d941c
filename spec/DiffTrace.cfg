SPECIFICATION Spec
INVARIANTS NoCrash IsScript Right
CHECK_DEADLOCK FALSE
