SPECIFICATION Spec
CONSTANTS MaxV = 2
INVARIANTS Positive PeakAtZero ScaleInvariant DetScales DetIsCofactor
CHECK_DEADLOCK FALSE
