SPECIFICATION Spec
INVARIANTS Symmetric Reflexive NotTwice ZeroIsText Sign Wider NotANumber Overflow
CHECK_DEADLOCK FALSE
