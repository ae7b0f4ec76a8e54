SPECIFICATION Spec
CONSTANTS
  Depth = 2
  NSys = 2
INVARIANT StartOk
INVARIANT TracesOk
INVARIANT RunOk
INVARIANT OpenNeedsBoth
INVARIANT FieldsOk
INVARIANT Emit
