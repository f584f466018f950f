SPECIFICATION Spec
CONSTANTS
    MaxChannels = 4
    MaxDevices = 4
    MaxPath = 198
    MaxFile = 48
    MaxName = 249
    MaxDesc = 49
VIEW View
CHECK_DEADLOCK TRUE
