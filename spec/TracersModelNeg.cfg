SPECIFICATION Spec
CONSTANTS
  T = 4
  Emit = FALSE
INVARIANTS
  NeverMoves
CHECK_DEADLOCK FALSE
