CONSTANT N = 6
INIT Init
NEXT Next
INVARIANT Inv
INVARIANT Export
CHECK_DEADLOCK FALSE
