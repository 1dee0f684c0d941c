SPECIFICATION Spec
INVARIANTS NoCrash NotThrown Statistics Output Compared FromFiles
CHECK_DEADLOCK FALSE
