SPECIFICATION Spec
CONSTANTS Parts = 2 Max = 3 Look = "all"
INVARIANT Inv
CHECK_DEADLOCK FALSE
