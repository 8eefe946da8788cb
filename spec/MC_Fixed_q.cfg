SPECIFICATION Spec
CONSTANT Base = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
