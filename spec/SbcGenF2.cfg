INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
 NA = 4
 NB = 3
 Toks = {0, 1, 2, 5}
 Sessions = {"s1", "s2"}
 MaxCnt = 3
 KindSet = {"read", "write", "wverify", "wsame", "orwrite", "sync", "verify", "prefetch"}
 SizeSet = {6, 10, 12, 16}
 Durable = TRUE
 Faults = FALSE
 Switches = {}
 N = 120
 CrashW = 4
 FailW = 25
 AttrW = 0
 GoneW = 2
