SPECIFICATION Spec
INVARIANTS NoCrash SuccessIsComplete LeftoverIsNoBaseline EnoughRoom
CHECK_DEADLOCK FALSE
