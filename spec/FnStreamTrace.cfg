SPECIFICATION Spec
CONSTANTS
    LogSize = 640
    Room = 30
    RoomDate = 40
CHECK_DEADLOCK TRUE
