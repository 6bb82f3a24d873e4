CONSTANTS
  Seeds <- SomeSeeds
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS SameSeedSameRun UnseededDiffer GeneratorAdvances Emit
PROPERTIES GlobalOnlyByProgram OwnOnlyWhenPassed
CHECK_DEADLOCK FALSE
