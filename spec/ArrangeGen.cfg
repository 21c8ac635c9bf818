SPECIFICATION Spec
CONSTANTS
  Points = {1, 2, 3}
  Pars = {1, 2}
  Coupling = FALSE
  Sharing = FALSE
  Static = FALSE
  MaxCalls = 1
  Emit = TRUE
INVARIANTS EmitCall
CHECK_DEADLOCK FALSE
