CONSTANT OPT = {"PPCC", "MXWC", "TTAA", "TTCC", "PPAA", "TRPA", "TRPC", "MXWA", "TTBB", "TTDD", "PPBB", "PPDD"}
INIT Init
NEXT Next
INVARIANT Inv
INVARIANT Export
CHECK_DEADLOCK FALSE
