SPECIFICATION Spec
CONSTANTS
  VALS = {0, 11, 13034}
  NNB = 2
  NQ = 2
INVARIANT Inv
PROPERTY Widen
CHECK_DEADLOCK FALSE
