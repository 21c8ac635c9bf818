SPECIFICATION Spec
CONSTANTS
  Params <- P
  Order <- O
  Assign <- Apos
  Flag = "kept"
  Raw = TRUE
  MaxSteps = 2
  Emit = FALSE
INVARIANTS SameParameters SameConfig Rebuildable
CHECK_DEADLOCK FALSE
