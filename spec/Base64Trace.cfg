SPECIFICATION Spec
INVARIANTS NoCrash OnlyTheAlphabet EncodingDecodes LineBreaks ReadsBack NothingBehind
CHECK_DEADLOCK FALSE
