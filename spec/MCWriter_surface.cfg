CONSTANTS
 MBLK = 32
 KIND = "surface"
 MAXLEN = 3
INIT Init
NEXT Next
INVARIANTS LastWins RoundTrip Accepted Sensitive Export
CHECK_DEADLOCK FALSE
