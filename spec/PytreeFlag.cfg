SPECIFICATION Spec
CONSTANTS
  Params <- P
  Order <- O
  Assign <- A
  Flag = "recomputed"
  Raw = TRUE
  MaxSteps = 2
  Emit = FALSE
INVARIANTS SameParameters SameConfig Rebuildable
CHECK_DEADLOCK FALSE
