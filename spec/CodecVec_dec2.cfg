CONSTANTS CAP = 6 WHICH = "dec" PART = 2 PARTS = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
