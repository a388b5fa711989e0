CONSTANTS CAP = 10 WHICH = "enc" PART = 0 PARTS = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
