SPECIFICATION Spec
INVARIANTS NoCrash Listed JoinsBack Environment
CHECK_DEADLOCK FALSE
