INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
 NoTag = "ffffffff"
 Sends = 1000
 Letters = {"write", "write1", "read", "nop", "nop0", "abort", "abortset", "abortother", "reset", "other", "logout"}
 Offsets = {0, 1, 2, 3, 4, 5, 131, 202}
 Win = 128
 Steps = 30
