SPECIFICATION Spec
CONSTANTS
  Config <- C0
  Cap = 2
  PerThread = 1
  Threads = 2
  Crashes = 2
  Starts = 3
CHECK_DEADLOCK FALSE
INVARIANTS Survives NothingLost WrittenEverywhere OnlyTaken OnlyUnfinishedMarked CommonOrder Repeats Sessions StoppedMeansDrained
PROPERTIES Delivered
