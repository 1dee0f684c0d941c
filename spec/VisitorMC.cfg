SPECIFICATION Spec
INVARIANTS AtMostOnce Agrees Nearest
PROPERTY Ends
CHECK_DEADLOCK FALSE
