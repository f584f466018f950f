SPECIFICATION Spec
CONSTANTS
    LogSize = 12
    Room = 7
    RoomDate = 9
    Items <- Smalls
    MaxPut = 4
INVARIANTS Bounded OneNewline Concatenation
PROPERTY Extends
