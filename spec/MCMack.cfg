CONSTANTS
  N = 4
  Ratios <- Spread
  Bases <- BMixed
  Toggle = 1
  KeepOne = TRUE
SPECIFICATION Spec
INVARIANTS MackLaws MackErrors Emit
CHECK_DEADLOCK FALSE
