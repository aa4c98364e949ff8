CONSTANTS
 MBLK = 128
 NAVBSZ = 256
 ANLBSZ = 128
INIT Init
NEXT Next
INVARIANT WriteOut
CHECK_DEADLOCK FALSE
