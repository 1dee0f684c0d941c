SPECIFICATION Spec
CONSTANT Large = FALSE
INVARIANTS ReadBack NoPart NeverBad
PROPERTY Monotone
VIEW View
CHECK_DEADLOCK FALSE
