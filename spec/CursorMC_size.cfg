SPECIFICATION Spec
CONSTANTS
  NODES = 4
  WIDE = 3
  PRINT = TRUE
  ACTS = {"bool", "num", "null", "str", "obj", "list", "struct", "flush", "push", "field", "closeobj", "closestruct", "pushitem", "closelist", "close"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
