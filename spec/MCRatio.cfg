CONSTANTS
  N = 4
  Ratios <- Three
  Bases <- BBoth
  Toggle = 1
  KeepOne = FALSE
SPECIFICATION Spec
INVARIANTS RatiosBack IndicatorCounts AvgLaws AvgRelations ExcludeMoves Emit
CHECK_DEADLOCK FALSE
