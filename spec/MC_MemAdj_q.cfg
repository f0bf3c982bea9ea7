SPECIFICATION Spec
CONSTANTS N = 3 NF = 2
INVARIANTS MessagesMatch OnePlace
CHECK_DEADLOCK FALSE
