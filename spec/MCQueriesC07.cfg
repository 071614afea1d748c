SPECIFICATION Spec
CONSTANTS
  T = 8
  MaxN = 3
INVARIANT Thm07
CHECK_DEADLOCK FALSE
