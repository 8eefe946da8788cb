SPECIFICATION Spec
CONSTANTS
  Bytes = {1,2}
  Max = 2
  Ops = 2
  Capacity = 2
  Patient = TRUE
INVARIANT Inv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
