SPECIFICATION Spec
CONSTANTS
    Devs <- MDevs
    LenOf <- MLen
    DirsOf <- MDirs
    FileOf <- MFile
    NameLen <- MNameLen
    DayOf <- MDay
    HourOf <- MHour
    MaxPath = 250
    Retry = 5
    Lines = 6
    MaxTime = 0
    MaxRestart = 2
    Mode = "size"
INVARIANTS SizeSuffix SizeCount SizeLimit SizeComplete NoSplit Dated Kept Healthy Throttle OwnOnly
PROPERTIES AfterRecovery
CHECK_DEADLOCK FALSE
