INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK CacheSound Total
PROPERTIES RefusedInert Exact Forced SparseAgrees FailedLocal Exclusive HeldTillEnd
CHECK_DEADLOCK FALSE
CONSTANTS
 NA = 2
 NB = 1
 Toks = {0, 1}
 Sessions = {"s1"}
 MaxCnt = 2
 KindSet = {"read", "write", "wsame", "orwrite", "sync", "verify"}
 SizeSet = {6, 10, 12, 16}
 Durable = TRUE
 Faults = TRUE
 Switches = {}
