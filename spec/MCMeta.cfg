CONSTANTS
 MBLK = 8
 NAVBSZ = 14
 ANLBSZ = 19
 MAXMOVES = 2
 Desc <- MetaDesc
INIT Init
NEXT Next
VIEW View
INVARIANTS AsDescribed OnlyGood
CHECK_DEADLOCK FALSE
