CONSTANT MBLK = 8
INIT Init
NEXT Next
INVARIANTS Keeps Cuts
CHECK_DEADLOCK FALSE
