SPECIFICATION Spec
CONSTANTS MaxOps = 3 MaxBase = 3
INVARIANTS Clean Counts Answers Nobody ReportsWhy OncePerPair Prepared NotStuck
CHECK_DEADLOCK FALSE
