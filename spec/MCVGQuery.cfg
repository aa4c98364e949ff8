INIT Init
NEXT Next
INVARIANT Partition
INVARIANT Filters
INVARIANT Refine
CHECK_DEADLOCK FALSE
