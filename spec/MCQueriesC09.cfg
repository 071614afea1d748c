SPECIFICATION Spec
CONSTANTS
  T = 8
  MaxN = 3
INVARIANT Thm09
CHECK_DEADLOCK FALSE
