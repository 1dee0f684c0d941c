SPECIFICATION Spec
INVARIANTS NoCrash Parts Appended Joined SplitAndJoined
CHECK_DEADLOCK FALSE
