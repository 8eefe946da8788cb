SPECIFICATION Spec
CONSTANT Base = 8
INVARIANT Inv
CHECK_DEADLOCK FALSE
