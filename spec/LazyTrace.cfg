CONSTANTS
  Objs = {}
  Attrs = {}
SPECIFICATION Spec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
