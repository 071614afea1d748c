CONSTANTS FirstYear = 1970 LastYear = 2100
INIT MCInit
NEXT MCNext
INVARIANT AllRight
CHECK_DEADLOCK FALSE
