CONSTANTS
  Rows <- SixRows
  Lobs <- AllLobs
  Codes <- AllCodes
  Names <- FewNames
  Losses <- FewLosses
  Kinds <- FewKinds
SPECIFICATION Spec
INVARIANTS SoundComplete Widening Rejects Describes Emit
CHECK_DEADLOCK FALSE
