CONSTANT WHICH = "float"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
