SPECIFICATION Spec
CONSTANTS MaxArgs = 4
INVARIANTS ImagesMeasured Ending InForce
CHECK_DEADLOCK FALSE
