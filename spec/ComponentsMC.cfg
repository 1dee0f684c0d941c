SPECIFICATION Spec
CONSTANTS MaxDim = 6
INVARIANTS OneEach CountsChanges
CHECK_DEADLOCK FALSE
