CONSTANTS
  N = 5
  Ratios <- Steep
  Bases <- BMixed
  Toggle = 1
  KeepOne = TRUE
SPECIFICATION Spec
INVARIANTS RatiosBack Projection FitLaws Emit
CHECK_DEADLOCK FALSE
