SPECIFICATION Spec
CONSTANTS
    Devs <- MDevs
    LenOf <- MLen
    DirsOf <- MDirs
    FileOf <- MFile
    NameLen <- MNameLen
    DayOf <- MDay
    HourOf <- MHour
    MaxPath = 250
    Retry = 5
    Lines = 7
    MaxTime = 0
    MaxRestart = 1
    Mode = "fault"
INVARIANTS SizeSuffix SizeCount SizeLimit SizeComplete NoSplit Dated Kept Healthy Throttle OwnOnly
PROPERTIES AfterRecovery
CHECK_DEADLOCK FALSE
