CONSTANTS
  Kinds <- AllKinds
  Sizes <- ThreeSizes
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS Judged Unmoved Emit
CHECK_DEADLOCK FALSE
