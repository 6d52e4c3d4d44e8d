SPECIFICATION Spec
CONSTANTS
  Ways = 2
  Sets = 2
  Tags = {0, 1}
  NWords = 1
  NVals = 1
  Ops = {"write", "flush"}
  UseSets = {0, 1}
  MaxMem = 2
  Fault = "none"
  Emit = FALSE
INVARIANTS Sound Settled Blocking
CHECK_DEADLOCK FALSE
