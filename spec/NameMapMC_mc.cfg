CONSTANTS NAMELEN = 2 SIZE = 4 INPUT = 3 FEED = 3 PRINT = FALSE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
