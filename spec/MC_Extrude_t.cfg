SPECIFICATION Spec
CONSTANTS
  MAXL = 3
  EXTRA = 3
  STEPS = {1, 3}
INVARIANT Inv
CHECK_DEADLOCK FALSE
