SPECIFICATION Spec
CONSTANTS N = 4 NF = 2
INVARIANTS MessagesMatch OnePlace
CHECK_DEADLOCK FALSE
