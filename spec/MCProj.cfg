CONSTANTS
  N = 4
  Ratios <- Falling
  Bases <- BMixed
  Toggle = 1
  KeepOne = TRUE
SPECIFICATION Spec
INVARIANTS RatiosBack Projection FitLaws Emit
CHECK_DEADLOCK FALSE
