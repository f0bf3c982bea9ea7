SPECIFICATION Spec
CONSTANTS
  VALS = {0, 1, 3}
  MAXN = 5
  DS = {1, 2, 3, 4}
  ONS = {0, 1, 3}
  TEND = 12
  NR = 4
  DIST = {0, 1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
