INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK CacheSound Total
PROPERTIES RefusedInert Exact Forced SparseAgrees FailedLocal Exclusive HeldTillEnd
CHECK_DEADLOCK FALSE
CONSTANTS
 NA = 1
 NB = 1
 Toks = {0, 1}
 Sessions = {"s1", "s2"}
 MaxCnt = 1
 KindSet = {"read", "write", "sync", "verify", "resv", "tur"}
 SizeSet = {10}
 Durable = FALSE
 Faults = FALSE
 Switches = {"ro"}
