SPECIFICATION Spec
CONSTANTS
  Points = {1, 2, 3}
  Pars = {1, 2}
  Coupling = TRUE
  Sharing = FALSE
  Static = FALSE
  MaxCalls = 1
  Emit = FALSE
INVARIANTS Pure
CHECK_DEADLOCK FALSE
