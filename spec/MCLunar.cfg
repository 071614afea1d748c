CONSTANTS FirstYear = 1959 LastYear = 2049
INIT Init
NEXT Next
INVARIANTS Clear Year
CHECK_DEADLOCK FALSE
