SPECIFICATION Spec
CONSTANTS N = 3  BITS = 1
INVARIANTS Counters Final Back
CHECK_DEADLOCK FALSE
