SPECIFICATION Spec
CONSTANTS MaxCalls = 3 MaxObjs = 3
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
