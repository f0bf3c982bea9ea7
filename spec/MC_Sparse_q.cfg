SPECIFICATION Spec
CONSTANTS N = 2  BITS = 3
INVARIANTS Counters Final Back
CHECK_DEADLOCK FALSE
