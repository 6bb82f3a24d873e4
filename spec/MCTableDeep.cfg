CONSTANTS
  Depth = 3
SPECIFICATION Spec
INVARIANTS Laws OfTriangle Emit
CHECK_DEADLOCK FALSE
