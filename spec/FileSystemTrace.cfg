SPECIFICATION Spec
INVARIANTS NoCrash Ended AllAnswersRight
CHECK_DEADLOCK FALSE
ALIAS Alias
