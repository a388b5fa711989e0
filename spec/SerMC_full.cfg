CONSTANTS NODES = 4  DEPTH = 3  PRINT = TRUE  SLIM = FALSE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
