CONSTANTS
  Names <- AllNames
  Objs = {}
  Types = {}
SPECIFICATION Spec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
