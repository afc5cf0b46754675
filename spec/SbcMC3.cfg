INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK CacheSound Total
PROPERTIES RefusedInert Exact Forced SparseAgrees FailedLocal Exclusive HeldTillEnd
CHECK_DEADLOCK FALSE
CONSTANTS
 NA = 3
 NB = 1
 Toks = {0, 1}
 Sessions = {"s1"}
 MaxCnt = 3
 KindSet = {"read", "write", "wverify", "wsame", "orwrite", "sync", "verify", "prefetch"}
 SizeSet = {10, 16}
 Durable = TRUE
 Faults = TRUE
 Switches = {"ro"}
