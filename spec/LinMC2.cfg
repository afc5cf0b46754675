INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = 4
 Vals = {0, 1, 2, 3}
