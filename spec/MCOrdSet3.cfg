CONSTANT DEPTH = 3
CONSTANT UNIV = {1, 2, 3}
INIT Init
NEXT Next
INVARIANT Distinct
INVARIANT KeepOrder
INVARIANT LookKeeps
INVARIANT Agree
CHECK_DEADLOCK FALSE
