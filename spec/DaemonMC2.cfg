INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Conns = {"a", "b"}
 Tokens = {1, 2}
 MaxWrites = 3
 MaxStarts = 3
 Blocking = {FALSE}
 Ends = {"kill"}
 Sources = {"127.0.0.1"}
INVARIANTS ServesHonourable SessionsReachable OneHost Durable NothingElse InsideFile Fits
PROPERTIES Isolated StaysRefused
