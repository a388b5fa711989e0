CONSTANTS DEPTH = 5 LONG = 0 MAXLEN = 3 PRINT = FALSE READ = TRUE JSON = TRUE NULLS = TRUE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
