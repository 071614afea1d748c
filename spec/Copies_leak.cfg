SPECIFICATION Spec
CONSTANTS
  Places = {p1, p2, p3}
  Kinds = {k1, k2}
  Ranges = {1, 2}
  Instants = {1, 2}
  CacheIn = "leak"
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
