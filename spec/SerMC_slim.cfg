CONSTANTS NODES = 5  DEPTH = 4  PRINT = TRUE  SLIM = TRUE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
