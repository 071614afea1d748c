SPECIFICATION Spec
CONSTANTS
  Threads = {p1, p2}
  Instants = {1, 2, 3}
  Fails = {3}
  ReadOnce = TRUE
  WriteOnce = TRUE
  MaxQueries = 5
INVARIANTS Pure CacheSound
CHECK_DEADLOCK FALSE
