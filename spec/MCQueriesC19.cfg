SPECIFICATION Spec
CONSTANTS
  T = 8
  MaxN = 3
INVARIANT Thm19
CHECK_DEADLOCK FALSE
