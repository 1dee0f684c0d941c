SPECIFICATION Spec
INVARIANTS NoCrash RunsRight Depends
CHECK_DEADLOCK FALSE
