SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
CONSTANTS First = 1860 Last = 2199
