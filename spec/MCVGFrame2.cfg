CONSTANT MAXLEN = 2
INIT Init
NEXT Next
INVARIANT Agree
INVARIANT InStep
PROPERTY Progress
CHECK_DEADLOCK FALSE
