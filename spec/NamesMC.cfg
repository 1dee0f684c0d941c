SPECIFICATION Spec
CONSTANTS Most = 3
INVARIANTS Right Same
CHECK_DEADLOCK FALSE
