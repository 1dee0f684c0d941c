SPECIFICATION Spec
CONSTANTS MaxMade = 2  MaxSecond = 2
INVARIANTS RecordedIsRead InterruptedIsNoBaseline ReplayMatches SameAsReading
CHECK_DEADLOCK FALSE
