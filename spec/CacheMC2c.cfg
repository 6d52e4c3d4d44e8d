SPECIFICATION Spec
CONSTANTS
  NC = 2
  Ways = 1
  Sets = 1
  Tags = {1, 2}
  NWords = 1
  NVals = 2
  AmoWords = {}
  Fault = "none"
INVARIANTS ResponsesOK RowsOK NothingLost CleanIsMemory OneOwner QuietMeansQuiet FlushedClean Blocking

CHECK_DEADLOCK FALSE
