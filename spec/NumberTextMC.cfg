SPECIFICATION Spec
CONSTANTS Long = 5 Places = 3
INVARIANTS Reads IsNumber Near_ Few SameAgain SignKept Short_ WholeRight
CHECK_DEADLOCK FALSE
