SPECIFICATION Spec
CONSTANTS
  Threads = {p1, p2}
  Instants = {1, 2, 3}
  Fails = {3}
  ReadOnce = FALSE
  WriteOnce = TRUE
  MaxQueries = 5
INVARIANTS Pure
CHECK_DEADLOCK FALSE
