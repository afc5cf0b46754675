INIT Init
NEXT Next
INVARIANTS OneHost Distinct NonZero OneNexus Owned Entered
PROPERTIES RefusedInert Forward Offered1 Replaces Quoted Released Stopped Turned Welcome
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 Conns = {c1, c2, c3}
 HostSet = {"h1"}
 PortSet = {"p1", "p2"}
 Inis = {"i1"}
 Isids = {"a"}
 Letters = {"sec", "op"}
 Quotes = {"9"}
 Handles = {"1", "2", "3", "4"}
 Blocks = {FALSE}
 Service = FALSE
