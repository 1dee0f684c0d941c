SPECIFICATION Spec
INVARIANTS NoCrash OracleRight NumbersRight
CHECK_DEADLOCK FALSE
