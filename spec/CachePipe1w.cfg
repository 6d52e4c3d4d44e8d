SPECIFICATION Spec
CONSTANTS
  Ways = 1
  Sets = 2
  Tags = {0, 1}
  NWords = 2
  NVals = 1
  Ops = {"read", "write", "amo", "inv", "flush"}
  UseSets = {0}
  MaxMem = 2
  Fault = "none"
  Emit = FALSE
INVARIANTS Sound Settled Blocking
CHECK_DEADLOCK FALSE
