SPECIFICATION Spec
CONSTANTS Capacity = 2 MaxWrites = 4 MaxChunk = 3 Codes = {0, 9}
INVARIANTS InOrder Complete NothingLost NoDeadlock
PROPERTY Ends
CHECK_DEADLOCK FALSE
