CONSTANTS
  Names <- TraceNames
  Objs = {}
  Types = {}
SPECIFICATION Spec
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
