SPECIFICATION Spec
CONSTANTS
  CHARS = {97, 233, 10, 128512}
  LONG = 3
  PRINT = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
