CONSTANT CAP = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
