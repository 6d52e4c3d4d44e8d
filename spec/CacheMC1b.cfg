SPECIFICATION Spec
CONSTANTS
  NC = 1
  Ways = 1
  Sets = 2
  Tags = {1, 2}
  NWords = 1
  NVals = 2
  AmoWords = {}
  Fault = "none"
INVARIANTS ResponsesOK RowsOK NothingLost CleanIsMemory OneOwner QuietMeansQuiet FlushedClean Blocking

CHECK_DEADLOCK FALSE
