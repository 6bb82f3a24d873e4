CONSTANTS
  N = 5
  Ratios <- Halves
  Bases <- BEven
  Toggle = 0
  KeepOne = TRUE
SPECIFICATION Spec
INVARIANTS RankLaws CorrLaws ClassLaws Emit
CHECK_DEADLOCK FALSE
