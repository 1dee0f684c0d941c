SPECIFICATION Spec
CONSTANTS MaxArgs = 0  MaxMade = 3  FewArgs = TRUE
INVARIANTS ArgumentsConsumed Unusable NoBaseline FailureIsNoSuccess Mode2 Positions AllCounted ResultRight AnswersRight ManyRight
PROPERTIES BaselineStays NothingIsTakenBack
CHECK_DEADLOCK FALSE
