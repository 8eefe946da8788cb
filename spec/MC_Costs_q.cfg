SPECIFICATION Spec
CONSTANTS MaxLive = 2 MaxOpens = 2
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
