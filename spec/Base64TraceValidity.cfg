SPECIFICATION Spec
INVARIANTS NoCrash CheckIsRight DecoderAccepts DecoderRefuses DecoderWritesNoMore
CHECK_DEADLOCK FALSE
