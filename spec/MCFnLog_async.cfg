SPECIFICATION SafeSpec
CONSTANTS
  Config <- C0
  Cap = 2
  Profile = "async"
  PerThread = 2
  Threads = 2
  MaxLife = 3
CHECK_DEADLOCK FALSE
INVARIANTS AtMostOnce OnlyAdmitted CommonOrder WrittenEverywhere NothingExtra Bounded OneSession NoSilentLoss RefusedForAReason StoppedMeansDrained StopKeepsCompleted SettledSettings
PROPERTIES Silent RealTime 
