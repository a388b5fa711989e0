SPECIFICATION Spec
CONSTANTS
  NODES = 6
  WIDE = 4
  PRINT = TRUE
  ACTS = {"bool", "num", "null", "str", "obj", "list", "skip", "flush", "entry", "try", "skipobj", "item", "close"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
