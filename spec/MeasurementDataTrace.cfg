SPECIFICATION Spec
INVARIANTS NoCrash AllAnswersRight
ALIAS Alias
CHECK_DEADLOCK FALSE
