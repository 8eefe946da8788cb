SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Wide = 2 MaxCalls = 6 PartKey = FALSE PlaceKey = FALSE Torn = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
