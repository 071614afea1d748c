CONSTANTS
  Names = {"a", "b", "c"}
  Objs = {"o1", "o2"}
  Types = {"t1"}
  MaxBuilt = 2
  FromAny = FALSE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Log
INVARIANTS TypeOK CycleFree OneHome OneMeaning AliasesAgree
PROPERTIES FailureAtomic NoNewCycle LazyBuild Stable Refusal
CHECK_DEADLOCK FALSE
