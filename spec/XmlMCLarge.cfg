SPECIFICATION Spec
CONSTANT Large = TRUE
INVARIANTS ReadBack NoPart NeverBad
PROPERTY Monotone
VIEW View
CHECK_DEADLOCK FALSE
