CONSTANTS
 N = 4
 NP = 2
 NT = 2
INIT Init
NEXT Next
INVARIANTS Derived Unique
CHECK_DEADLOCK FALSE
