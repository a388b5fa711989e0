CONSTANTS CAP = 6 WHICH = "dec" PART = 3 PARTS = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
