SPECIFICATION Spec
CONSTANTS Units = 5 MaxRest = 2 Vals = {0, 1}
INVARIANTS Conforms Framing VictimSafe
PROPERTIES Live NoLeak
CHECK_DEADLOCK FALSE
