SPECIFICATION ReadSpec
CONSTANTS
    MaxChannels = 2
    MaxDevices = 2
    MaxPath = 198
    MaxFile = 48
    MaxName = 249
    MaxDesc = 49
    LineSet <- SmallLines
    MaxLines = 3
    Alphabet = {}
    MaxLen = 0
    Defs = {}
INVARIANTS Sizes Hierarchy Layout
PROPERTY Grows
