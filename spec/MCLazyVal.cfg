CONSTANTS
  Objs = {"p", "q"}
  Attrs = {"Base.a", "Base.b", "Base.n", "Sub.b"}
  MaxRuns = 4
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Log
INVARIANTS Owned NoLeak
PROPERTIES Once Hit Retry Frugal Refused
CHECK_DEADLOCK FALSE
