SPECIFICATION Spec
INVARIANT Inv
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
CONSTANT Years = 104
