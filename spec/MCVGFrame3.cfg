CONSTANT MAXLEN = 3
INIT Init
NEXT Next
INVARIANT Agree
INVARIANT InStep
PROPERTY Progress
CHECK_DEADLOCK FALSE
