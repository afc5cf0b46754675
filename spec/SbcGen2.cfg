INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
 NA = 4
 NB = 3
 Toks = {0, 1, 2, 5}
 Sessions = {"s1", "s2"}
 MaxCnt = 3
 KindSet = {"read", "write", "wverify", "wsame", "orwrite", "sync", "verify", "prefetch", "resv", "tur"}
 SizeSet = {6, 10, 12, 16}
 Durable = TRUE
 Faults = FALSE
 Switches = {"ro", "swp", "removable", "online"}
 N = 120
 CrashW = 2
 FailW = 0
 AttrW = 2
 GoneW = 2
