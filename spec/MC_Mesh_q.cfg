CONSTANTS
 W = 2
 H = 1
INIT Init
NEXT Next
INVARIANTS Exact
CHECK_DEADLOCK FALSE
