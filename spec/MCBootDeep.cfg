CONSTANTS
  Shapes <- AllShapes
  Picks <- UpTo4
  Gammas <- Means
SPECIFICATION Spec
INVARIANTS Judged Neutral MeanDraws Balance Separate Identify OneDraw Emit
CHECK_DEADLOCK FALSE
