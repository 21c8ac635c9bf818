SPECIFICATION Spec
CONSTANTS
  Params <- P
  Order <- O
  Assign <- A
  Flag = "kept"
  Raw = TRUE
  MaxSteps = 3
  Emit = TRUE
INVARIANTS EmitHist
VIEW View
CHECK_DEADLOCK FALSE
