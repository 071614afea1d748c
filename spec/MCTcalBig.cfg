CONSTANTS FirstYear = 1600 LastYear = 2400
INIT MCInit
NEXT MCNext
INVARIANT AllRight
CHECK_DEADLOCK FALSE
