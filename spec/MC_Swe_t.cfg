SPECIFICATION Spec
CONSTANTS N = 4 H = {0, 2} QM = 1 BM = 2 MAXSTEP = 1
PROPERTIES Conserved DryStay LakeStays
CHECK_DEADLOCK FALSE
