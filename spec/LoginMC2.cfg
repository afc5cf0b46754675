INIT Init
NEXT Next
INVARIANTS OneHost Distinct NonZero OneNexus Owned Entered
PROPERTIES RefusedInert Forward Offered1 Replaces Quoted Released Stopped Turned Welcome
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 Conns = {c1, c2, c3}
 HostSet = {"h1", "h2"}
 PortSet = {"p1"}
 Inis = {"i1"}
 Isids = {"a", "b"}
 Letters = {"hello", "op", "chap3"}
 Quotes = {}
 Handles = {"1", "2", "3", "4"}
 Blocks = {TRUE, FALSE}
 Service = TRUE
