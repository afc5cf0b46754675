INIT Init
NEXT Next
VIEW View
INVARIANTS Right Kept Seen
PROPERTIES Only One
CHECK_DEADLOCK FALSE
CONSTANTS
 Sessions = {"s1"}
 Codes = {0, 8, 42, 53}
 Lens = {0, 512}
 Cmds = 3
 Snaps = 1
