SPECIFICATION Spec
CONSTANTS
    Devs <- TDevs
    LenOf <- TLen
    DirsOf <- TDirs
    FileOf <- TFile
    NameLen <- TNameLen
    DayOf <- TDay
    HourOf <- THour
    MaxPath = 250
    Retry = 5
