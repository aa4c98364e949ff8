CONSTANTS
 MBLK = 128
 BASES = 3
SPECIFICATION Spec
INVARIANTS Accepted Stamps Agree Case Short Bases Export
CHECK_DEADLOCK FALSE
