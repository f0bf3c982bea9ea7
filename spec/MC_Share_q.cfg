CONSTANTS
 NW = 3
 S1 = 2
 S2 = 1
 PHASES = 0
SPECIFICATION Spec
INVARIANTS NothingBroken ExactlyOnce
CHECK_DEADLOCK FALSE
