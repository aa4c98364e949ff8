CONSTANT MBLK = 8
INIT Init
NEXT Next
INVARIANTS Algebra Ordered
CHECK_DEADLOCK FALSE
