SPECIFICATION Spec
CONSTANTS
  T = 4
  Emit = FALSE
INVARIANTS
  TypeOK
  RowsArePairs
  BlocksSymmetric
PROPERTIES
  RegroupKeeps
  PermuteMoves
CHECK_DEADLOCK FALSE
