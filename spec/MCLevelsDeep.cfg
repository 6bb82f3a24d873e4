CONSTANTS
  Pool <- Wide
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS Ascending InsideUnit OneSided TwoSided OrderFree Headings Percentiles Monotone Normal Emit
CHECK_DEADLOCK FALSE
