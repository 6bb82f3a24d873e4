CONSTANTS
  Shapes <- AllShapes
  Picks <- UpTo2
  Gammas <- AllG
SPECIFICATION Spec
INVARIANTS Judged Neutral MeanDraws Balance Separate OneDraw Emit
CHECK_DEADLOCK FALSE
