CONSTANTS NAMELEN = 2 SIZE = 5 INPUT = 4 FEED = 3 PRINT = FALSE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
