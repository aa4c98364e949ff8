CONSTANTS
 MBLK = 8
INIT Init
NEXT Next
INVARIANTS Right Same
CHECK_DEADLOCK FALSE
