CONSTANTS
  Shapes <- AllShapes
SPECIFICATION Spec
INVARIANTS Rebuilt SameRatios SameAverages ScaledSquare MackScales TestsSame FitScales Emit
CHECK_DEADLOCK FALSE
