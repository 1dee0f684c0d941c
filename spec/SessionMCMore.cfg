SPECIFICATION Spec
CONSTANTS MaxRuns = 4 MaxMade = 2 Reset = TRUE
INVARIANTS ResultsRight OwnOutput ModeRight Symmetric
CHECK_DEADLOCK FALSE
