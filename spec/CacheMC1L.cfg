SPECIFICATION FairSpec
CONSTANTS
  NC = 1
  Ways = 1
  Sets = 1
  Tags = {1, 2}
  NWords = 2
  NVals = 2
  AmoWords = {}
  Fault = "none"
INVARIANTS ResponsesOK RowsOK NothingLost CleanIsMemory OneOwner QuietMeansQuiet FlushedClean Blocking
PROPERTIES Completes
CHECK_DEADLOCK FALSE
