CONSTANTS
  N = 5
  Ratios <- Steep
  Bases <- BMixed
  Toggle = 1
  KeepOne = TRUE
SPECIFICATION Spec
INVARIANTS MackLaws MackErrors Emit
CHECK_DEADLOCK FALSE
