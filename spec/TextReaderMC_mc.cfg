SPECIFICATION Spec
CONSTANTS
  CHARS = {97, 98, 10, 9}
  LONG = 4
  PRINT = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
