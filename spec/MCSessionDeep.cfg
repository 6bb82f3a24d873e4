CONSTANTS
  Calls <- AllCalls
  Spots <- TwoSpots
  MaxLen = 5
  Cache = "value"
SPECIFICATION Spec
INVARIANTS Pure Repeats TwinStays Restores Emit
PROPERTIES OnlySwitches KeptStay
CHECK_DEADLOCK FALSE
