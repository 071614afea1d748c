SPECIFICATION Spec
CONSTANTS
  T = 8
  MaxN = 3
INVARIANT Thm08
CHECK_DEADLOCK FALSE
