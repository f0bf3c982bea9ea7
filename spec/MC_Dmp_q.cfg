SPECIFICATION Spec
CONSTANTS
  VALS = {0, 9, 11, 13020, 13034}
  NNB = 2
  NQ = 1
INVARIANT Inv
PROPERTY Widen
CHECK_DEADLOCK FALSE
