SPECIFICATION Spec
CONSTANTS Capacity = 3 MaxWrites = 5 MaxChunk = 3 Codes = {0, 9}
INVARIANTS InOrder Complete NothingLost NoDeadlock
PROPERTY Ends
CHECK_DEADLOCK FALSE
