SPECIFICATION Spec
CONSTANTS
  Params <- P
  Order <- O
  Assign <- A
  Flag = "kept"
  Raw = TRUE
  MaxSteps = 3
  Emit = FALSE
INVARIANTS SameParameters SameConfig Rebuildable
CHECK_DEADLOCK FALSE
