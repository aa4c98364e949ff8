CONSTANT KIND = "spline"
CONSTANT MAXLEN = 2
INIT Init
NEXT Next
INVARIANT Acceptable
INVARIANT FrontAgrees
INVARIANT TurbulenceFits
INVARIANT FlipTwice
PROPERTY Frame
CHECK_DEADLOCK FALSE
