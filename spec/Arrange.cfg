SPECIFICATION Spec
CONSTANTS
  Points = {1, 2, 3}
  Pars = {1, 2}
  Coupling = FALSE
  Sharing = FALSE
  Static = FALSE
  MaxCalls = 2
  Emit = FALSE
VIEW View
INVARIANTS Pure Functional
CHECK_DEADLOCK FALSE
