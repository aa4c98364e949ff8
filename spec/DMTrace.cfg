CONSTANT MBLK = 128
INIT Init
NEXT Next
INVARIANT WriteOut
CHECK_DEADLOCK FALSE
