SPECIFICATION Spec
INVARIANTS NoCrash RunsRight
CHECK_DEADLOCK FALSE
