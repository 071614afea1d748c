SPECIFICATION Spec
CONSTANTS
  T = 7
  MaxN = 3
INVARIANT Thm06
CHECK_DEADLOCK FALSE
