SPECIFICATION Spec
CONSTANTS MaxCalls = 4 MaxObjs = 4
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
