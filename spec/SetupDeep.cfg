SPECIFICATION Spec
CONSTANTS
  Depth = 3
  NSys = 2
INVARIANT StartOk
INVARIANT TracesOk
INVARIANT RunOk
INVARIANT OpenNeedsBoth
INVARIANT FieldsOk
INVARIANT Emit
