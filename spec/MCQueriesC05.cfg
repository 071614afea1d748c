SPECIFICATION Spec
CONSTANTS
  T = 8
  MaxN = 3
INVARIANT Thm05
CHECK_DEADLOCK FALSE
