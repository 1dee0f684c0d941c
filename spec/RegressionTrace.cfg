SPECIFICATION Spec
VIEW View
ALIAS Short
INVARIANTS NoCrash Ended NotStarted StartedOnce FailRight RetRight CountRight ModeSteady ArgsRight NamesRight OthersStay ReportsRight PairRight RecordRight
CHECK_DEADLOCK FALSE
