SPECIFICATION Spec
CONSTANTS
  Params <- P
  Order <- O
  Assign <- A
  Flag = "kept"
  Raw = FALSE
  MaxSteps = 2
  Emit = FALSE
INVARIANTS SameParameters SameConfig Rebuildable
CHECK_DEADLOCK FALSE
