CONSTANTS
 MBLK = 32
 KIND = "sounding"
 MAXLEN = 3
INIT Init
NEXT Next
INVARIANTS LastWins RoundTrip Accepted Sensitive Export
CHECK_DEADLOCK FALSE
