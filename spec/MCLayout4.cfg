CONSTANTS
 MBLK = 8
 MAXMOVES = 4
INIT Init
NEXT Next
VIEW View
INVARIANTS Independent Faithful Export
CHECK_DEADLOCK FALSE
