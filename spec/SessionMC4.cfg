INIT Init
NEXT Next
VIEW View
INVARIANTS Once InOrder Rest Dead Tiled Asked Status Stores
PROPERTIES Counter Outside Pings Out Named
CHECK_DEADLOCK FALSE
CONSTANTS
 NoTag = "ffffffff"
 Sends = 4
 Letters = {"write", "write1", "abortset", "logout"}
 Offsets = {1, 2, 3, 4, 5}
 Win = 2
