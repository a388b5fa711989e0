CONSTANTS CAP = 6 WHICH = "dec" PART = 1 PARTS = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
