CONSTANTS
  Names = {"a", "b"}
  Objs = {"o1"}
  Types = {"t1"}
  MaxBuilt = 1
  FromAny = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Log
INVARIANTS TypeOK CycleFree OneHome OneMeaning AliasesAgree
PROPERTIES FailureAtomic NoNewCycle LazyBuild Stable Refusal
CHECK_DEADLOCK FALSE
