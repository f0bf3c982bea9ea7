SPECIFICATION Spec
CONSTANTS
  MUS = 7
  MUD = 2
  DC = 20
  NORM = {0, 1, 2, 3, 4}
  COH = 1
  CAP = 40
INVARIANT Inv
PROPERTIES Monotone Weakened
CHECK_DEADLOCK FALSE
