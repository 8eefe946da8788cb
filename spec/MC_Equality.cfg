SPECIFICATION Spec
CONSTANTS Parts = 3 Max = 3 Look = "all"
INVARIANT Inv
CHECK_DEADLOCK FALSE
