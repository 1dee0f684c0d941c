SPECIFICATION Live
CONSTANTS MaxArgs = 2  MaxMade = 1  FewArgs = TRUE
INVARIANTS ArgumentsConsumed Unusable NoBaseline FailureIsNoSuccess Mode2 Positions AllCounted ResultRight AnswersRight ManyRight
PROPERTIES BaselineStays NothingIsTakenBack Terminates
CHECK_DEADLOCK FALSE
