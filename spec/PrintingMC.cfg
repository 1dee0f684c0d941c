SPECIFICATION Spec
CONSTANT Steps = 4
INVARIANTS Right AllRead Same NotEscaped
CHECK_DEADLOCK FALSE
