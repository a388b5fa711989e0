SPECIFICATION DiagSpec
CONSTANTS
  NODES = 4
  WIDE = 3
  PRINT = FALSE
  ACTS = {"bool", "num", "null", "str", "char", "tag", "obj", "list", "struct", "openstr", "check", "skip", "next", "flush", "closestr", "entry", "try", "push", "field", "pushnull", "closeobj", "skipobj", "closestruct", "item", "pushitem", "closelist", "close"}
INVARIANT DiagInv
CHECK_DEADLOCK FALSE
