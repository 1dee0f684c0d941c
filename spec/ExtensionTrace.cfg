SPECIFICATION Spec
INVARIANTS NoCrash Ended EventsRight CountRight AllMade
CHECK_DEADLOCK FALSE
