CONSTANTS NEl = 3 NGr = 4
SPECIFICATION Spec
INVARIANTS Confluent TightIsGreatest DoneIsTight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
