CONSTANTS NAMELEN = 2 SIZE = 5 INPUT = 3 FEED = 3 PRINT = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
