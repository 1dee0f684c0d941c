SPECIFICATION Spec
CONSTANTS Chars = {47, 46, 58, 97} MaxLen = 6 MaxOther = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
