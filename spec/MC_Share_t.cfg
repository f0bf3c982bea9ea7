CONSTANTS
 NW = 3
 S1 = 3
 S2 = 2
 PHASES = 1
SPECIFICATION Spec
INVARIANTS NothingBroken ExactlyOnce
CHECK_DEADLOCK FALSE
