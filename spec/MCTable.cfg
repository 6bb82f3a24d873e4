CONSTANTS
  Depth = 2
SPECIFICATION Spec
INVARIANTS Laws OfTriangle Emit
CHECK_DEADLOCK FALSE
