CONSTANTS
  Pool <- Small
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS Ascending InsideUnit OneSided TwoSided OrderFree Headings Percentiles Monotone Normal Emit
CHECK_DEADLOCK FALSE
