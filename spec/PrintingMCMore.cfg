SPECIFICATION Spec
CONSTANT Steps = 6
INVARIANTS Right AllRead Same NotEscaped
CHECK_DEADLOCK FALSE
