CONSTANTS
  Rows <- SixRows
  Lobs <- AllLobs
  Codes <- AllCodes
  Names <- AllNames
  Losses <- AllLosses
  Kinds <- AllKinds
SPECIFICATION Spec
INVARIANTS SoundComplete Widening Rejects Describes Emit
CHECK_DEADLOCK FALSE
