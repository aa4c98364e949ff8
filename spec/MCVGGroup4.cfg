CONSTANTS
 TYPES = {0, 3}
 NUMS = {0, 1, 7}
 DEPTH = 4
INIT Init
NEXT Next
INVARIANTS Homogeneous InOrder FirstIn Complete Export
CHECK_DEADLOCK FALSE
