CONSTANTS
 N = 4
 NP = 3
 NT = 2
INIT Init
NEXT Next
INVARIANTS Mirrored Complete SendElements
CHECK_DEADLOCK FALSE
