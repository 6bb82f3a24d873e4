CONSTANTS
  N = 4
  Ratios <- Three
  Bases <- BBoth
  Toggle = 2
  KeepOne = FALSE
SPECIFICATION Spec
INVARIANTS RatiosBack IndicatorCounts AvgLaws AvgRelations ExcludeMoves Emit
CHECK_DEADLOCK FALSE
