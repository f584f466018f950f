SPECIFICATION SafeSpec
CONSTANTS
  Config <- C0
  Cap = 2
  PerThread = 3
  Threads = 1
  Crashes = 2
  Starts = 3
CHECK_DEADLOCK FALSE
INVARIANTS Survives NothingLost WrittenEverywhere OnlyTaken OnlyUnfinishedMarked CommonOrder Repeats Sessions StoppedMeansDrained
