CONSTANTS NODES = 6  DEPTH = 5  PRINT = TRUE  SLIM = TRUE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
