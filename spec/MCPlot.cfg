SPECIFICATION Spec
INVARIANTS Meet Extremes PanelTotals OnlyAhead Shown Emit
CHECK_DEADLOCK FALSE
