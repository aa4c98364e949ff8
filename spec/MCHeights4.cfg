CONSTANT N = 4
INIT Init
NEXT Next
INVARIANT Inv
INVARIANT Export
CHECK_DEADLOCK FALSE
