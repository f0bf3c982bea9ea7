SPECIFICATION Spec
CONSTANTS NEN = 3 NSP = 2 MAXSZ = 2 NBITS = 2 NE = 1 NF = 1 K = 9
INVARIANTS FlexOk BufOk
CHECK_DEADLOCK FALSE
