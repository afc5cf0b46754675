INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 40
 Sessions = {"s1", "s2", "s3", "s4"}
 Keys = {"1111111111111111", "2222222222222222", "00000000000000ab"}
 TypeSet = {0, 1, 3, 5, 6, 7, 8}
 Services = {0, 1, 2, 3, 4, 5, 6}
