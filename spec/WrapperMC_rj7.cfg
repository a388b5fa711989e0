CONSTANTS DEPTH = 4 LONG = 7 MAXLEN = 2 PRINT = TRUE READ = TRUE JSON = TRUE NULLS = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
