SPECIFICATION Spec
CONSTANTS MaxLive = 2 MaxOpens = 4
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
