CONSTANTS
  Kinds <- AllKinds
  Sizes <- OneSize
  MaxLen = 2
SPECIFICATION Spec
INVARIANTS Judged Unmoved Emit
CHECK_DEADLOCK FALSE
