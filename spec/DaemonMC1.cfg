INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Conns = {"a", "b"}
 Tokens = {1, 2}
 MaxWrites = 2
 MaxStarts = 2
 Blocking = {FALSE, TRUE}
 Ends = {"kill"}
 Sources = {"127.0.0.1", "127.0.0.9"}
INVARIANTS ServesHonourable SessionsReachable OneHost Durable NothingElse InsideFile Fits
PROPERTIES Isolated StaysRefused
