CONSTANTS
  Calls <- SomeCalls
  Spots <- TwoSpots
  MaxLen = 4
  Cache = "once"
SPECIFICATION Spec
INVARIANTS Pure Repeats TwinStays Restores 
PROPERTIES OnlySwitches KeptStay
CHECK_DEADLOCK FALSE
