SPECIFICATION Spec
CONSTANTS
  MAXL = 2
  EXTRA = 2
  STEPS = {1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
