INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
 NA = 2
 NB = 2
 Toks = {0, 1, 2, 5}
 Sessions = {"s1", "s2", "s3"}
 MaxCnt = 2
 KindSet = {"read", "write", "sync", "verify", "resv", "resv2", "tur"}
 SizeSet = {6, 10, 12, 16}
 Durable = FALSE
 Faults = FALSE
 Switches = {}
 N = 40
 CrashW = 0
 FailW = 0
 AttrW = 0
 GoneW = 5
