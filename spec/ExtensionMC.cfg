SPECIFICATION Spec
CONSTANTS MaxOps = 2 MaxBase = 2
INVARIANTS Clean Counts Answers Nobody ReportsWhy OncePerPair Prepared NotStuck
CHECK_DEADLOCK FALSE
