SPECIFICATION Spec
CONSTANTS
  MUS = 4
  MUD = 2
  DC = 8
  NORM = {0, 1, 2, 4}
  COH = 1
  CAP = 16
INVARIANT Inv
PROPERTIES Monotone Weakened
CHECK_DEADLOCK FALSE
