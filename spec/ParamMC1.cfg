SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANT Prefix
INVARIANT Rule
CHECK_DEADLOCK FALSE
