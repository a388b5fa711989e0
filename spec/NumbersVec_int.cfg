CONSTANT WHICH = "int"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
