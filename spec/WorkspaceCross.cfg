SPECIFICATION Spec
CONSTANTS
  KeyHasOptions = TRUE
  KeepTraced = FALSE
  CrossObject = TRUE
  SharedTables = FALSE
  Themed = FALSE
  Frugal = FALSE
  MaxCalls = 5
  MaxDepth = 2
  MaxRun = 5
  Kinds = {"jit", "grad", "vmap", "scan"}
  Fns = {"chi", "chi_coarse", "aofchi", "growth", "power", "eisenhu", "nonlin_linear", "nz", "wl", "nc", "wl_other", "spline", "spline_int", "derived"}
  Emit = FALSE
VIEW View
INVARIANTS
  TypeOK
  Transparent
CHECK_DEADLOCK FALSE
