SPECIFICATION Spec
CONSTANTS
  VALS = {0, 1, 3}
  MAXN = 4
  DS = {1, 2, 3}
  ONS = {0, 2}
  TEND = 9
  NR = 4
  DIST = {0, 1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
