CONSTANT MAXLEN = 3
INIT Init
NEXT Next
INVARIANT FailKeeps
INVARIANT LookKeeps
INVARIANT ReadMoves
INVARIANT MarksStay
INVARIANT SpliceKeeps
INVARIANT NonNegative
CHECK_DEADLOCK FALSE
