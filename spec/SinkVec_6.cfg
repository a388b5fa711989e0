CONSTANT LONG = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
