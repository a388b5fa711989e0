SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MAXDIGITS = 3
  PLACES = 4
  MAXEXP = 0
  DIGITS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANTS RoundsRight ExactlyOne BeyondInfinite NextIsNext ExactIsItself CompareIsOrder
