CONSTANTS
  N = 5
  Ratios <- Three
  FreeOnly = FALSE
SPECIFICATION Spec
INVARIANTS Contained RatiosContained Emerged AsForeseen UniformLaws Emit
CHECK_DEADLOCK FALSE
