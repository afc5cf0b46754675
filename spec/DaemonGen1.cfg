INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Conns = {"a", "b", "c"}
 Tokens = {1}
 MaxWrites = 0
 MaxStarts = 0
 Blocking = {FALSE}
 Ends = {"kill", "term", "int"}
 Sources = {"127.0.0.1", "127.0.0.9"}
 Steps = 45
