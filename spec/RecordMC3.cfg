SPECIFICATION Spec
CONSTANTS MaxMade = 3  MaxSecond = 1
INVARIANTS RecordedIsRead InterruptedIsNoBaseline ReplayMatches SameAsReading
CHECK_DEADLOCK FALSE
