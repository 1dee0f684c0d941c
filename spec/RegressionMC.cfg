SPECIFICATION Spec
CONSTANTS MaxArgs = 3  MaxMade = 0  FewArgs = FALSE
INVARIANTS ArgumentsConsumed Unusable NoBaseline FailureIsNoSuccess Mode2 Positions AllCounted ResultRight AnswersRight ManyRight
PROPERTIES BaselineStays NothingIsTakenBack
CHECK_DEADLOCK FALSE
