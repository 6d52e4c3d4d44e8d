SPECIFICATION Spec
CONSTANTS
  Ways = 1
  Sets = 2
  Tags = {0, 1}
  NWords = 1
  NVals = 2
  Ops = {"read", "write", "amo", "inv", "flush"}
  UseSets = {0}
  MaxMem = 2
  Fault = "none"
  Emit = FALSE
INVARIANTS Sound Settled Blocking
PROPERTY Answered
CHECK_DEADLOCK FALSE
