SPECIFICATION Spec
CONSTANTS
  Bytes = {1,2}
  Max = 3
  Ops = 2
  Capacity = 2
  Patient = FALSE
INVARIANT Inv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
