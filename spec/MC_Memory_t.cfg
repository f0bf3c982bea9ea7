SPECIFICATION Spec
CONSTANTS NEN = 4 NSP = 2 MAXSZ = 2 NBITS = 2 NE = 1 NF = 1 K = 40
INVARIANTS FlexOk BufOk
CHECK_DEADLOCK FALSE
