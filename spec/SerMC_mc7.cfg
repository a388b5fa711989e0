CONSTANTS NODES = 7  DEPTH = 4  PRINT = FALSE  SLIM = TRUE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
