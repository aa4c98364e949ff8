CONSTANT MAXLEN = 4
INIT Init
NEXT Next
INVARIANT Whole
INVARIANT Kept
INVARIANT Agree
PROPERTY Only
CHECK_DEADLOCK FALSE
