CONSTANT MAXC = 3
INIT Init
NEXT Next
INVARIANT Disjoint
INVARIANT SameSize
INVARIANT Unambiguous
INVARIANT OneToOne
CHECK_DEADLOCK FALSE
