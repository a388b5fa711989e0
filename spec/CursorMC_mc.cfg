SPECIFICATION Spec
CONSTANTS
  NODES = 4
  WIDE = 3
  PRINT = FALSE
  ACTS = {"bool", "num", "null", "str", "tag", "obj", "list", "struct", "openstr", "check", "skip", "ty", "next", "flush", "skipstr", "closestr", "entry", "try", "push", "field", "pushnull", "closeobj", "skipobj", "closestruct", "item", "pushitem", "closelist", "close", "mark"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
