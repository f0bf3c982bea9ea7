SPECIFICATION Spec
CONSTANTS NAMES = {"a", "b"}  VALS = {"0", "f"}  DEPTH = 7
INVARIANT NoneBroken
PROPERTY Stable
CHECK_DEADLOCK FALSE
