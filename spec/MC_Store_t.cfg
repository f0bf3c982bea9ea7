SPECIFICATION Spec
CONSTANTS NAMES = {"a", "b"}  VALS = {"0", "f"}  DEPTH = 10
INVARIANT NoneBroken
PROPERTY Stable
CHECK_DEADLOCK FALSE
