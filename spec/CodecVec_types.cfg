CONSTANTS CAP = 6 WHICH = "types" PART = 0 PARTS = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
