SPECIFICATION WordsSpec
CONSTANTS
    MaxChannels = 2
    MaxDevices = 2
    MaxPath = 198
    MaxFile = 48
    MaxName = 249
    MaxDesc = 49
    LineSet = {}
    MaxLines = 0
    Alphabet = {"a", "b", "_", " ", "$", "{", "}"}
    MaxLen = 4
    Defs <- SmallDefs
INVARIANTS Rewriting
