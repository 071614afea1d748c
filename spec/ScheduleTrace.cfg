SPECIFICATION Spec1
POSTCONDITION Post
CHECK_DEADLOCK FALSE
