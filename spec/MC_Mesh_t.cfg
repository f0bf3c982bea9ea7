CONSTANTS
 W = 2
 H = 2
INIT Init
NEXT Next
INVARIANTS Exact
CHECK_DEADLOCK FALSE
