CONSTANTS
  NO = 3
  ND = 3
  Amounts <- AWide
  MaxLen = 6
  Mode = "grid"
SPECIFICATION Spec
INVARIANTS IncrIsTotals OrderFree SplitFree CumIsRunning CumHasNoHole Formats RoundTrip Geometry Ratios Emit
CHECK_DEADLOCK FALSE
