INIT Init
NEXT Next
VIEW View
INVARIANTS HolderRegistered NoZeroKey
PROPERTIES RefusedInert Strangers WrongKey OnlyHolder Counter Cleared Others Preempted
CHECK_DEADLOCK FALSE
CONSTANTS
 Sessions = {"s1", "s2", "s3", "s4"}
 Keys = {"1111111111111111", "2222222222222222", "3333333333333333"}
 TypeSet = {0, 1, 3, 7, 8}
 Services = {0, 1, 2, 3, 4, 5, 6}
