SPECIFICATION SafeSpec
CONSTANTS
  Config <- C0
  Cap = 2
  PerThread = 2
  Threads = 2
  Crashes = 1
  Starts = 2
CHECK_DEADLOCK FALSE
INVARIANTS Survives NothingLost WrittenEverywhere OnlyTaken OnlyUnfinishedMarked CommonOrder Repeats Sessions StoppedMeansDrained
