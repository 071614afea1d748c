SPECIFICATION Spec
CONSTANTS
  T = 10
  MaxN = 3
INVARIANTS Thm05 Thm06 Thm07 Thm08 Thm09 Thm19
CHECK_DEADLOCK FALSE
