CONSTANTS
 MBLK = 8
 MAXMOVES = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS Independent Faithful Export
CHECK_DEADLOCK FALSE
