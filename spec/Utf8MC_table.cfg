CONSTANTS PRINT = TRUE Borders = {}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
