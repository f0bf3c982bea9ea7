SPECIFICATION Spec
CONSTANTS
  TYS = {"line", "tria", "quad", "tet", "hex"}
  NS = {1, 2, 3, 4, 5}
INVARIANT Inv
CHECK_DEADLOCK FALSE
