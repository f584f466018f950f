SPECIFICATION Spec
CONSTANTS
  Config <- C0
  Cap = 1
  Profile = "async"
  PerThread = 1
  Threads = 2
  MaxLife = 2
CHECK_DEADLOCK FALSE
INVARIANTS AtMostOnce OnlyAdmitted CommonOrder WrittenEverywhere NothingExtra Bounded OneSession NoSilentLoss RefusedForAReason StoppedMeansDrained StopKeepsCompleted SettledSettings
PROPERTIES Silent RealTime EveryStatementEnds EveryLineVisible
