CONSTANTS
  Calls <- AllCalls
  Spots <- ThreeSpots
  MaxLen = 4
  Cache = "none"
SPECIFICATION Spec
INVARIANTS Pure Repeats TwinStays Restores Emit
PROPERTIES OnlySwitches KeptStay
CHECK_DEADLOCK FALSE
