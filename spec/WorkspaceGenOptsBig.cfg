SPECIFICATION Spec
CONSTANTS
  KeyHasOptions = FALSE
  KeepTraced = FALSE
  CrossObject = FALSE
  SharedTables = FALSE
  Themed = TRUE
  Frugal = FALSE
  MaxCalls = 2
  MaxDepth = 2
  MaxRun = 2
  Kinds = {"jit", "grad", "vmap", "scan"}
  Fns = {"chi", "chi_coarse", "chi_short", "chi_single", "aofchi", "trans", "growth", "rate", "power", "eisenhu", "sigma8", "sigma1", "nonlin", "nonlin_linear", "nz", "nz_single", "kernel", "wl", "wl_ell", "nc", "nc_ell", "wl_other", "spline", "spline_der", "spline_int", "spline_anti", "derived", "hubble", "cl"}
  Emit = TRUE
INVARIANTS
  TypeOK
  EmitGoal
CHECK_DEADLOCK FALSE
