SPECIFICATION Spec
CONSTANTS
  Points = {1, 2, 3}
  Pars = {1, 2}
  Coupling = FALSE
  Sharing = FALSE
  Static = TRUE
  MaxCalls = 2
  Emit = FALSE
INVARIANTS Pure
CHECK_DEADLOCK FALSE
