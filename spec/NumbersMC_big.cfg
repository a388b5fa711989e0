CONSTANTS
 MAXLEN = 5
 MAXEXP = 3
 DIGITS = {0, 1, 2, 5, 7, 9}
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
