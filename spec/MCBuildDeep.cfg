CONSTANTS
  NO = 2
  ND = 2
  Amounts <- AWide
  MaxLen = 4
  Mode = "seq"
SPECIFICATION Spec
INVARIANTS IncrIsTotals OrderFree SplitFree CumIsRunning CumHasNoHole Formats RoundTrip Geometry Ratios Emit
CHECK_DEADLOCK FALSE
