SPECIFICATION Spec
CONSTANTS
  T = 4
  Emit = TRUE
VIEW View
INVARIANTS
  EmitState
CHECK_DEADLOCK FALSE
