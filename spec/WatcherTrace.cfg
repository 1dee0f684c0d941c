SPECIFICATION Spec
ALIAS Alias
INVARIANTS NoCrash Right
CHECK_DEADLOCK FALSE
