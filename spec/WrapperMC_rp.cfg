CONSTANTS DEPTH = 4 LONG = 7 MAXLEN = 2 PRINT = TRUE READ = TRUE JSON = FALSE NULLS = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
