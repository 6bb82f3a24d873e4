CONSTANTS
  N = 5
  Ratios <- Halves
  Bases <- BMixed
  Toggle = 1
  KeepOne = FALSE
SPECIFICATION Spec
INVARIANTS RatiosBack IndicatorCounts AvgLaws AvgRelations ExcludeMoves Emit
CHECK_DEADLOCK FALSE
