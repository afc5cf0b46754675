INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Conns = {"c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31", "c32", "c33", "c34", "c35", "c36", "c37", "c38", "c39", "c40"}
 HostSet = {"127.0.0.1", "127.0.0.2", "127.0.0.3"}
 PortSet = {"p1", "p2"}
 Inis = {"i1", "i2"}
 Isids = {"a", "b"}
 Letters = {"hello", "sec", "secn", "chap", "sec3", "chap3", "op", "bare", "stay", "disc", "nobody", "jump", "again", "boot"}
 Common = {"op", "sec3"}
 Quotes = {"9"}
 Handles = {"1", "2", "3", "4", "5", "6", "7", "8", "11", "12", "13", "14"}
 Blocks = {TRUE, FALSE}
 Service = TRUE
 Steps = 90
